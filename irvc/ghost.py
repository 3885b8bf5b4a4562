"""Ghost classes shared by the harnesses."""
import prover
import terms as t
from core import NotProved
from execu import Ptr
from terms import const

GBOX = '''
template<typename T> struct gbox {
  using value_type = T;
  T* p = nullptr; size_t n = 0;
  auto data() noexcept -> T*; auto data() const noexcept -> const T*; 
  auto size() const noexcept -> size_t;
  void reserve(size_t); void resize(size_t, T);
};
extern "C" { void* ghost_resize(void* old, size_t n, uint8_t v, void* box); }
template<typename T> auto gbox<T>::data() noexcept -> T* { return p; }
template<typename T> auto gbox<T>::data() const noexcept -> const T* { return p; }
template<typename T> auto gbox<T>::size() const noexcept -> size_t { return n; }
template<typename T> void gbox<T>::reserve(size_t) { }
template<typename T> void gbox<T>::resize(size_t k, T v) { p = (T*)ghost_resize(p, k, (uint8_t)v, this); n = k; }
'''


def resize_hook(ex, st, args):
    """contract of a dynamic byte container: resize(k) gives k elements (old ones kept)"""
    old, k, v, box = args
    st.events = list(st.events) + [('resize', k)]
    nm = [e for e in st.events if e[0] == 'resize']
    if len(nm) == 1:
        st.new('grown', k)
        return Ptr('grown', const(0, 64))
    if isinstance(old, Ptr) and old.obj == 'grown':
        ex.oblig += 1
        if prover.valid(t.not_(t.ult(st.objs['grown'].size, k)), st.pc) is not True:
            st.events = list(st.events) + [('grow', k)]
        return old
    raise NotProved('container use')


def box(ex, st, name, ptr, n):
    """a container object holding (ptr, n)"""
    b = st.new(name, 16)
    ex.store(st, b, ptr if ptr is not None else const(0, 64), 8)
    ex.store(st, Ptr(name, const(8, 64)), n, 8)
    return b
