"""Attributes of numpy.ndarray."""
NAMES = """
T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__
__array_interface__ __array_prepare__ __array_priority__ __array_struct__
__array_ufunc__ __array_wrap__ __bool__ __buffer__ __class__
__class_getitem__ __complex__ __contains__ __copy__ __deepcopy__ __delattr__
__delitem__ __dir__ __divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__
__float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__
__getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__
__imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__
__invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__
__ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__ __mul__ __ne__
__neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__
__reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__
__rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__
__rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__
__str__ __sub__ __subclasshook__ __truediv__ __xor__ all any argmax argmin
argpartition argsort astype base byteswap choose clip compress conj
conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump dumps fill
flags flat flatten getfield imag item itemset itemsize max mean min nbytes
ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape
resize round searchsorted setfield setflags shape size sort squeeze std
strides sum swapaxes take tobytes tofile tolist tostring trace transpose var
view
""".split()
