"""parameter names and simple defaults of library functions (installed
versions); brings calls the analysis does not look into to one form"""
SIG = {}
for _l in """\
numpy.abs x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.absolute x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.acos x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.acosh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.add x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.all a axis=None out=None keepdims where
numpy.allclose a b rtol=1e-05 atol=1e-08 equal_nan=False
numpy.amax a axis=None out=None keepdims initial where
numpy.amin a axis=None out=None keepdims initial where
numpy.angle z deg=False
numpy.any a axis=None out=None keepdims where
numpy.append arr values axis=None
numpy.apply_over_axes func a axes
numpy.arange start_or_stop stop=None step=1 dtype=None device=None like=None
numpy.arccos x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.arccosh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.arcsin x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.arcsinh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.arctan x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.arctan2 x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.arctanh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.argmax a axis=None out=None keepdims
numpy.argmin a axis=None out=None keepdims
numpy.argpartition a kth axis=-1 kind='introselect' order=None
numpy.argsort a axis=-1 kind=None order=None stable=None descending
numpy.argwhere a
numpy.around a decimals=0 out=None
numpy.array object dtype=None copy=True order='K' subok=False ndmin=0 ndmax=0 like=None
numpy.array_equal a1 a2 equal_nan=False
numpy.array_equiv a1 a2
numpy.array_repr arr max_line_width=None precision=None suppress_small=None
numpy.array_split ary indices_or_sections axis=0
numpy.array_str a max_line_width=None precision=None suppress_small=None
numpy.asanyarray a dtype=None order=None device=None copy=None like=None
numpy.asarray a dtype=None order=None device=None copy=None like=None
numpy.asarray_chkfinite a dtype=None order=None
numpy.ascontiguousarray a dtype=None like=None
numpy.asfortranarray a dtype=None like=None
numpy.asin x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.asinh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.asmatrix data dtype=None
numpy.astype x dtype copy=True device=None
numpy.atan x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.atan2 x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.atanh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.average a axis=None weights=None returned=False keepdims
numpy.bartlett M
numpy.base_repr number base=2 padding=0
numpy.binary_repr num width=None
numpy.bincount x weights=None minlength=0
numpy.bitwise_and x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.bitwise_count x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.bitwise_invert x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.bitwise_left_shift x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.bitwise_not x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.bitwise_or x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.bitwise_right_shift x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.bitwise_xor x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.blackman M
numpy.block arrays
numpy.bmat obj ldict=None gdict=None
numpy.broadcast_to array shape subok=False
numpy.busday_count begindates enddates weekmask='1111100' holidays busdaycal=None out=None
numpy.busday_offset dates offsets roll='raise' weekmask='1111100' holidays=None busdaycal=None out=None
numpy.can_cast from_ to casting='safe'
numpy.cbrt x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.ceil x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.choose a choices out=None mode='raise'
numpy.clip a a_min a_max out=None min max
numpy.column_stack tup
numpy.compress condition a axis=None out=None
numpy.concat arrays axis=0 out=None dtype=None casting='same_kind'
numpy.concatenate arrays axis=0 out=None dtype=None casting='same_kind'
numpy.conj x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.conjugate x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.convolve a v mode='full'
numpy.copy a order='K' subok=False
numpy.copysign x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.copyto dst src casting='same_kind' where=True
numpy.corrcoef x y=None rowvar=True dtype=None
numpy.correlate a v mode='valid'
numpy.cos x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.cosh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.count_nonzero a axis=None keepdims=False
numpy.cov m y=None rowvar=True bias=False ddof=None fweights=None aweights=None dtype=None
numpy.cross a b axisa=-1 axisb=-1 axisc=-1 axis=None
numpy.cumprod a axis=None dtype=None out=None
numpy.cumsum a axis=None dtype=None out=None
numpy.cumulative_prod x axis=None dtype=None out=None include_initial=False
numpy.cumulative_sum x axis=None dtype=None out=None include_initial=False
numpy.datetime_as_string arr unit=None timezone='naive' casting='same_kind'
numpy.datetime_data dtype
numpy.deg2rad x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.degrees x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.delete arr obj axis=None
numpy.diag v k=0
numpy.diag_indices n ndim=2
numpy.diag_indices_from arr
numpy.diagflat v k=0
numpy.diagonal a offset=0 axis1=0 axis2=1
numpy.diff a n=1 axis=-1 prepend append
numpy.digitize x bins right=False
numpy.divide x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.divmod x1 x2 out where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.dot a b out=None
numpy.dsplit ary indices_or_sections
numpy.dstack tup
numpy.ediff1d ary to_end=None to_begin=None
numpy.empty shape dtype=None order='C' device=None like=None
numpy.empty_like prototype dtype=None order='K' subok=True shape=None device=None
numpy.equal x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.exp x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.exp2 x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.expand_dims a axis
numpy.expm1 x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.extract condition arr
numpy.eye N M=None k=0 dtype order='C' device=None like=None
numpy.fabs x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.fft.fft a n=None axis=-1 norm=None out=None
numpy.fft.fft2 a s=None axes norm=None out=None
numpy.fft.fftfreq n d=1.0 device=None
numpy.fft.fftn a s=None axes=None norm=None out=None
numpy.fft.fftshift x axes=None
numpy.fft.hfft a n=None axis=-1 norm=None out=None
numpy.fft.ifft a n=None axis=-1 norm=None out=None
numpy.fft.ifft2 a s=None axes norm=None out=None
numpy.fft.ifftn a s=None axes=None norm=None out=None
numpy.fft.ifftshift x axes=None
numpy.fft.ihfft a n=None axis=-1 norm=None out=None
numpy.fft.irfft a n=None axis=-1 norm=None out=None
numpy.fft.irfft2 a s=None axes norm=None out=None
numpy.fft.irfftn a s=None axes=None norm=None out=None
numpy.fft.rfft a n=None axis=-1 norm=None out=None
numpy.fft.rfft2 a s=None axes norm=None out=None
numpy.fft.rfftfreq n d=1.0 device=None
numpy.fft.rfftn a s=None axes=None norm=None out=None
numpy.fft.test label='fast' verbose=1 extra_argv=None doctests=False coverage=False durations=-1 tests=None
numpy.fill_diagonal a val wrap=False
numpy.fix x out=None
numpy.flatnonzero a
numpy.flip m axis=None
numpy.fliplr m
numpy.flipud m
numpy.float_power x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.floor x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.floor_divide x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.fmax x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.fmin x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.fmod x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.format_float_positional x precision=None unique=True fractional=True trim='k' sign=False pad_left=None pad_right=None min_digits=None
numpy.format_float_scientific x precision=None unique=True trim='k' sign=False pad_left=None exp_digits=None min_digits=None
numpy.frexp x out where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.from_dlpack x device=None copy=None
numpy.frombuffer buffer dtype=None count=-1 offset=0 like=None
numpy.fromfile file dtype=None count=-1 sep='' offset=0 like=None
numpy.fromfunction function shape dtype like=None
numpy.fromiter iter dtype count=-1 like=None
numpy.frompyfunc func nin nout
numpy.fromregex file regexp dtype encoding=None
numpy.fromstring string dtype=None count=-1 sep like=None
numpy.full shape fill_value dtype=None order='C' device=None like=None
numpy.full_like a fill_value dtype=None order='K' subok=True shape=None device=None
numpy.gcd x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.geomspace start stop num=50 endpoint=True dtype=None axis=0
numpy.greater x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.greater_equal x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.hamming M
numpy.hanning M
numpy.heaviside x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.histogram a bins=10 range=None density=None weights=None
numpy.histogram2d x y bins=10 range=None density=None weights=None
numpy.histogram_bin_edges a bins=10 range=None weights=None
numpy.histogramdd sample bins=10 range=None density=None weights=None
numpy.hsplit ary indices_or_sections
numpy.hstack tup dtype=None casting='same_kind'
numpy.hypot x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.i0 x
numpy.identity n dtype=None like=None
numpy.imag val
numpy.indices dimensions dtype sparse=False
numpy.info object=None maxwidth=76 output=None toplevel='numpy'
numpy.inner a b
numpy.insert arr obj values axis=None
numpy.interp x xp fp left=None right=None period=None
numpy.intersect1d ar1 ar2 assume_unique=False return_indices=False
numpy.invert x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.is_busday dates weekmask='1111100' holidays=None busdaycal=None out=None
numpy.isclose a b rtol=1e-05 atol=1e-08 equal_nan=False
numpy.iscomplex x
numpy.iscomplexobj x
numpy.isdtype dtype kind
numpy.isfinite x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.isfortran a
numpy.isin element test_elements assume_unique=False invert=False kind=None
numpy.isinf x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.isnan x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.isnat x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.isneginf x out=None
numpy.isposinf x out=None
numpy.isreal x
numpy.isrealobj x
numpy.isscalar element
numpy.issubdtype arg1 arg2
numpy.iterable y
numpy.kaiser M beta
numpy.kron a b
numpy.lcm x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.ldexp x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.left_shift x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.less x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.less_equal x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.lexsort keys axis=-1
numpy.linalg.cholesky a upper=False
numpy.linalg.cond x p=None
numpy.linalg.cross x1 x2 axis=-1
numpy.linalg.det a
numpy.linalg.diagonal x offset=0
numpy.linalg.eig a
numpy.linalg.eigh a UPLO='L'
numpy.linalg.eigvals a
numpy.linalg.eigvalsh a UPLO='L'
numpy.linalg.inv a
numpy.linalg.lstsq a b rcond=None
numpy.linalg.matmul x1 x2
numpy.linalg.matrix_norm x keepdims=False ord='fro'
numpy.linalg.matrix_power a n
numpy.linalg.matrix_rank A tol=None hermitian=False rtol=None
numpy.linalg.matrix_transpose x
numpy.linalg.multi_dot arrays out=None
numpy.linalg.norm x ord=None axis=None keepdims=False
numpy.linalg.outer x1 x2
numpy.linalg.pinv a rcond=None hermitian=False rtol
numpy.linalg.qr a mode='reduced'
numpy.linalg.slogdet a
numpy.linalg.solve a b
numpy.linalg.svd a full_matrices=True compute_uv=True hermitian=False
numpy.linalg.svdvals x
numpy.linalg.tensordot x1 x2 axes=2
numpy.linalg.tensorinv a ind=2
numpy.linalg.tensorsolve a b axes=None
numpy.linalg.test label='fast' verbose=1 extra_argv=None doctests=False coverage=False durations=-1 tests=None
numpy.linalg.trace x offset=0 dtype=None
numpy.linalg.vecdot x1 x2 axis=-1
numpy.linalg.vector_norm x axis=None keepdims=False ord=2
numpy.linspace start stop num=50 endpoint=True retstep=False dtype=None axis=0 device=None
numpy.load file mmap_mode=None allow_pickle=False fix_imports=True encoding='ASCII' max_header_size=10000
numpy.loadtxt fname dtype comments='#' delimiter=None converters=None skiprows=0 usecols=None unpack=False ndmin=0 encoding=None max_rows=None quotechar=None like=None
numpy.log x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.log10 x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.log1p x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.log2 x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.logaddexp x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.logaddexp2 x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.logical_and x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.logical_not x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.logical_or x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.logical_xor x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.logspace start stop num=50 endpoint=True base=10.0 dtype=None axis=0
numpy.mask_indices n mask_func k=0
numpy.matmul x1 x2 out=None axes axis keepdims=False casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.matrix_transpose x
numpy.matvec x1 x2 out=None axes axis keepdims=False casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.max a axis=None out=None keepdims initial where
numpy.maximum x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.may_share_memory a b max_work=0
numpy.mean a axis=None dtype=None out=None keepdims where
numpy.median a axis=None out=None overwrite_input=False keepdims=False
numpy.min a axis=None out=None keepdims initial where
numpy.min_scalar_type a
numpy.minimum x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.mintypecode typechars typeset='GDFgdf' default='d'
numpy.mod x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.modf x out where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.moveaxis a source destination
numpy.multiply x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.nan_to_num x copy=True nan=0.0 posinf=None neginf=None
numpy.nanargmax a axis=None out=None keepdims
numpy.nanargmin a axis=None out=None keepdims
numpy.nancumprod a axis=None dtype=None out=None
numpy.nancumsum a axis=None dtype=None out=None
numpy.nanmax a axis=None out=None keepdims initial where
numpy.nanmean a axis=None dtype=None out=None keepdims where
numpy.nanmedian a axis=None out=None overwrite_input=False keepdims
numpy.nanmin a axis=None out=None keepdims initial where
numpy.nanpercentile a q axis=None out=None overwrite_input=False method='linear' keepdims weights=None
numpy.nanprod a axis=None dtype=None out=None keepdims initial where
numpy.nanquantile a q axis=None out=None overwrite_input=False method='linear' keepdims weights=None
numpy.nanstd a axis=None dtype=None out=None ddof=0 keepdims where mean correction
numpy.nansum a axis=None dtype=None out=None keepdims initial where
numpy.nanvar a axis=None dtype=None out=None ddof=0 keepdims where mean correction
numpy.ndim a
numpy.negative x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.nested_iters op axes flags=None op_flags=None op_dtypes=None order='K' casting='safe' buffersize=0
numpy.nextafter x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.nonzero a
numpy.not_equal x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.ones shape dtype=None order='C' device=None like=None
numpy.ones_like a dtype=None order='K' subok=True shape=None device=None
numpy.outer a b out=None
numpy.packbits a axis=None bitorder='big'
numpy.pad array pad_width mode='constant'
numpy.partition a kth axis=-1 kind='introselect' order=None
numpy.percentile a q axis=None out=None overwrite_input=False method='linear' keepdims=False weights=None
numpy.permute_dims a axes=None
numpy.place arr mask vals
numpy.poly seq_of_zeros
numpy.polyadd a1 a2
numpy.polyder p m=1
numpy.polydiv u v
numpy.polyfit x y deg rcond=None full=False w=None cov=False
numpy.polyint p m=1 k=None
numpy.polymul a1 a2
numpy.polysub a1 a2
numpy.polyval p x
numpy.positive x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.pow x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.power x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.prod a axis=None dtype=None out=None keepdims initial where
numpy.promote_types type1 type2
numpy.ptp a axis=None out=None keepdims
numpy.put a ind v mode='raise'
numpy.put_along_axis arr indices values axis
numpy.putmask a mask values
numpy.quantile a q axis=None out=None overwrite_input=False method='linear' keepdims=False weights=None
numpy.rad2deg x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.radians x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.ravel a order='C'
numpy.ravel_multi_index multi_index dims mode='raise' order='C'
numpy.real val
numpy.real_if_close a tol=100
numpy.reciprocal x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.remainder x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.repeat a repeats axis=None
numpy.require a dtype=None requirements=None like=None
numpy.reshape a shape order='C' copy=None
numpy.resize a new_shape
numpy.right_shift x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.rint x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.roll a shift axis=None
numpy.rollaxis a axis start=0
numpy.roots p
numpy.rot90 m k=1 axes
numpy.round a decimals=0 out=None
numpy.save file arr allow_pickle=True
numpy.searchsorted a v side='left' sorter=None
numpy.select condlist choicelist default=0
numpy.set_printoptions precision=None threshold=None edgeitems=None linewidth=None suppress=None nanstr=None infstr=None formatter=None sign=None floatmode=None legacy=None override_repr=None
numpy.setbufsize size
numpy.setdiff1d ar1 ar2 assume_unique=False
numpy.seterr all=None divide=None over=None under=None invalid=None
numpy.seterrcall func
numpy.setxor1d ar1 ar2 assume_unique=False
numpy.shape a
numpy.shares_memory a b max_work=-1
numpy.show_config mode='stdout'
numpy.sign x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.signbit x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.sin x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.sinc x
numpy.sinh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.size a axis=None
numpy.sort a axis=-1 kind=None order=None stable=None descending
numpy.sort_complex a
numpy.spacing x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.split ary indices_or_sections axis=0
numpy.sqrt x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.square x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.squeeze a axis=None
numpy.stack arrays axis=0 out=None dtype=None casting='same_kind'
numpy.std a axis=None dtype=None out=None ddof=0 keepdims where mean correction
numpy.subtract x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.sum a axis=None dtype=None out=None keepdims initial where
numpy.swapaxes a axis1 axis2
numpy.take a indices axis=None out=None mode='raise'
numpy.take_along_axis arr indices axis=-1
numpy.tan x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.tanh x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.tensordot a b axes=2
numpy.test label='fast' verbose=1 extra_argv=None doctests=False coverage=False durations=-1 tests=None
numpy.tile A reps
numpy.trace a offset=0 axis1=0 axis2=1 dtype=None out=None
numpy.transpose a axes=None
numpy.trapezoid y x=None dx=1.0 axis=-1
numpy.tri N M=None k=0 dtype like=None
numpy.tril m k=0
numpy.tril_indices n k=0 m=None
numpy.tril_indices_from arr k=0
numpy.trim_zeros filt trim='fb' axis=None
numpy.triu m k=0
numpy.triu_indices n k=0 m=None
numpy.triu_indices_from arr k=0
numpy.true_divide x1 x2 out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.trunc x out=None where=True casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.typename char
numpy.union1d ar1 ar2
numpy.unique ar return_index=False return_inverse=False return_counts=False axis=None equal_nan=True sorted=True
numpy.unique_all x
numpy.unique_counts x
numpy.unique_inverse x
numpy.unique_values x
numpy.unpackbits a axis=None count=None bitorder='big'
numpy.unravel_index indices shape order='C'
numpy.unstack x axis=0
numpy.unwrap p discont=None axis=-1 period=6.283185307179586
numpy.vander x N=None increasing=False
numpy.var a axis=None dtype=None out=None ddof=0 keepdims where mean correction
numpy.vdot a b
numpy.vecdot x1 x2 out=None axes axis keepdims=False casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.vecmat x1 x2 out=None axes axis keepdims=False casting='same_kind' order='K' dtype=None subok=True signature=None
numpy.vsplit ary indices_or_sections
numpy.vstack tup dtype=None casting='same_kind'
numpy.where condition x=None y=None
numpy.zeros shape dtype=None order='C' device=None like=None
numpy.zeros_like a dtype=None order='K' subok=True shape=None device=None
scipy.fftpack.cc_diff x a b period=None _cache
scipy.fftpack.cs_diff x a b period=None _cache
scipy.fftpack.dct x type=2 n=None axis=-1 norm=None overwrite_x=False
scipy.fftpack.dctn x type=2 shape=None axes=None norm=None overwrite_x=False
scipy.fftpack.diff x order=1 period=None _cache
scipy.fftpack.dst x type=2 n=None axis=-1 norm=None overwrite_x=False
scipy.fftpack.dstn x type=2 shape=None axes=None norm=None overwrite_x=False
scipy.fftpack.fft x n=None axis=-1 overwrite_x=False
scipy.fftpack.fft2 x shape=None axes overwrite_x=False
scipy.fftpack.fftfreq n d=1.0 device=None
scipy.fftpack.fftn x shape=None axes=None overwrite_x=False
scipy.fftpack.fftshift x axes=None
scipy.fftpack.hilbert x _cache
scipy.fftpack.idct x type=2 n=None axis=-1 norm=None overwrite_x=False
scipy.fftpack.idctn x type=2 shape=None axes=None norm=None overwrite_x=False
scipy.fftpack.idst x type=2 n=None axis=-1 norm=None overwrite_x=False
scipy.fftpack.idstn x type=2 shape=None axes=None norm=None overwrite_x=False
scipy.fftpack.ifft x n=None axis=-1 overwrite_x=False
scipy.fftpack.ifft2 x shape=None axes overwrite_x=False
scipy.fftpack.ifftn x shape=None axes=None overwrite_x=False
scipy.fftpack.ifftshift x axes=None
scipy.fftpack.ihilbert x _cache
scipy.fftpack.irfft x n=None axis=-1 overwrite_x=False
scipy.fftpack.itilbert x h period=None _cache
scipy.fftpack.next_fast_len target
scipy.fftpack.rfft x n=None axis=-1 overwrite_x=False
scipy.fftpack.rfftfreq n d=1.0
scipy.fftpack.sc_diff x a b period=None _cache
scipy.fftpack.shift x a period=None _cache
scipy.fftpack.ss_diff x a b period=None _cache
scipy.fftpack.test label='fast' verbose=1 extra_argv=None doctests=False coverage=False tests=None parallel=None
scipy.fftpack.tilbert x h period=None _cache
scipy.ndimage.affine_transform input matrix offset=0.0 output_shape=None output=None order=3 mode='constant' cval=0.0 prefilter=True
scipy.ndimage.binary_closing input structure=None iterations=1 output=None origin=0 mask=None border_value=0 brute_force=False axes=None
scipy.ndimage.binary_dilation input structure=None iterations=1 mask=None output=None border_value=0 origin=0 brute_force=False axes=None
scipy.ndimage.binary_erosion input structure=None iterations=1 mask=None output=None border_value=0 origin=0 brute_force=False axes=None
scipy.ndimage.binary_fill_holes input structure=None output=None origin=0 axes=None
scipy.ndimage.binary_hit_or_miss input structure1=None structure2=None output=None origin1=0 origin2=None axes=None
scipy.ndimage.binary_opening input structure=None iterations=1 output=None origin=0 mask=None border_value=0 brute_force=False axes=None
scipy.ndimage.binary_propagation input structure=None mask=None output=None border_value=0 origin=0 axes=None
scipy.ndimage.black_tophat input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.center_of_mass input labels=None index=None
scipy.ndimage.convolve input weights output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.convolve1d input weights axis=-1 output=None mode='reflect' cval=0.0 origin=0
scipy.ndimage.correlate input weights output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.correlate1d input weights axis=-1 output=None mode='reflect' cval=0.0 origin=0
scipy.ndimage.distance_transform_bf input metric='euclidean' sampling=None return_distances=True return_indices=False distances=None indices=None
scipy.ndimage.distance_transform_cdt input metric='chessboard' return_distances=True return_indices=False distances=None indices=None
scipy.ndimage.distance_transform_edt input sampling=None return_distances=True return_indices=False distances=None indices=None
scipy.ndimage.extrema input labels=None index=None
scipy.ndimage.find_objects input max_label=0
scipy.ndimage.fourier_ellipsoid input size n=-1 axis=-1 output=None
scipy.ndimage.fourier_gaussian input sigma n=-1 axis=-1 output=None
scipy.ndimage.fourier_shift input shift n=-1 axis=-1 output=None
scipy.ndimage.fourier_uniform input size n=-1 axis=-1 output=None
scipy.ndimage.gaussian_filter input sigma order=0 output=None mode='reflect' cval=0.0 truncate=4.0 radius=None axes=None
scipy.ndimage.gaussian_filter1d input sigma axis=-1 order=0 output=None mode='reflect' cval=0.0 truncate=4.0 radius=None
scipy.ndimage.gaussian_gradient_magnitude input sigma output=None mode='reflect' cval=0.0 axes=None
scipy.ndimage.gaussian_laplace input sigma output=None mode='reflect' cval=0.0 axes=None
scipy.ndimage.generate_binary_structure rank connectivity
scipy.ndimage.generic_filter input function size=None footprint=None output=None mode='reflect' cval=0.0 origin=0 extra_arguments extra_keywords=None axes=None
scipy.ndimage.generic_filter1d input function filter_size axis=-1 output=None mode='reflect' cval=0.0 origin=0 extra_arguments extra_keywords=None
scipy.ndimage.generic_gradient_magnitude input derivative output=None mode='reflect' cval=0.0 extra_arguments extra_keywords=None axes=None
scipy.ndimage.generic_laplace input derivative2 output=None mode='reflect' cval=0.0 extra_arguments extra_keywords=None axes=None
scipy.ndimage.geometric_transform input mapping output_shape=None output=None order=3 mode='constant' cval=0.0 prefilter=True extra_arguments extra_keywords=None
scipy.ndimage.grey_closing input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.grey_dilation input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.grey_erosion input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.grey_opening input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.histogram input min max bins labels=None index=None
scipy.ndimage.iterate_structure structure iterations origin=None
scipy.ndimage.label input structure=None output=None
scipy.ndimage.labeled_comprehension input labels index func out_dtype default pass_positions=False
scipy.ndimage.laplace input output=None mode='reflect' cval=0.0 axes=None
scipy.ndimage.map_coordinates input coordinates output=None order=3 mode='constant' cval=0.0 prefilter=True
scipy.ndimage.maximum input labels=None index=None
scipy.ndimage.maximum_filter input size=None footprint=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.maximum_filter1d input size axis=-1 output=None mode='reflect' cval=0.0 origin=0
scipy.ndimage.maximum_position input labels=None index=None
scipy.ndimage.mean input labels=None index=None
scipy.ndimage.median input labels=None index=None
scipy.ndimage.median_filter input size=None footprint=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.minimum input labels=None index=None
scipy.ndimage.minimum_filter input size=None footprint=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.minimum_filter1d input size axis=-1 output=None mode='reflect' cval=0.0 origin=0
scipy.ndimage.minimum_position input labels=None index=None
scipy.ndimage.morphological_gradient input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.morphological_laplace input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.percentile_filter input percentile size=None footprint=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.prewitt input axis=-1 output=None mode='reflect' cval=0.0
scipy.ndimage.rank_filter input rank size=None footprint=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.rotate input angle axes reshape=True output=None order=3 mode='constant' cval=0.0 prefilter=True
scipy.ndimage.shift input shift output=None order=3 mode='constant' cval=0.0 prefilter=True
scipy.ndimage.sobel input axis=-1 output=None mode='reflect' cval=0.0
scipy.ndimage.spline_filter input order=3 output mode='mirror'
scipy.ndimage.spline_filter1d input order=3 axis=-1 output mode='mirror'
scipy.ndimage.standard_deviation input labels=None index=None
scipy.ndimage.sum input labels=None index=None
scipy.ndimage.sum_labels input labels=None index=None
scipy.ndimage.test label='fast' verbose=1 extra_argv=None doctests=False coverage=False tests=None parallel=None
scipy.ndimage.uniform_filter input size=3 output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.uniform_filter1d input size axis=-1 output=None mode='reflect' cval=0.0 origin=0
scipy.ndimage.value_indices arr ignore_value=None
scipy.ndimage.variance input labels=None index=None
scipy.ndimage.vectorized_filter input function size=None footprint=None output=None mode='reflect' cval=None origin=None axes=None batch_memory=1073741824
scipy.ndimage.watershed_ift input markers structure=None output=None
scipy.ndimage.white_tophat input size=None footprint=None structure=None output=None mode='reflect' cval=0.0 origin=0 axes=None
scipy.ndimage.zoom input zoom output=None order=3 mode='constant' cval=0.0 prefilter=True grid_mode=False
scipy.optimize.anderson F xin iter=None alpha=None w0=0.01 M=5 verbose=False maxiter=None f_tol=None f_rtol=None x_tol=None x_rtol=None tol_norm=None line_search='armijo' callback=None
scipy.optimize.basinhopping func x0 niter=100 T=1.0 stepsize=0.5 minimizer_kwargs=None take_step=None accept_test=None callback=None interval=50 disp=False niter_success=None rng=None target_accept_rate=0.5 stepwise_factor=0.9 seed=None
scipy.optimize.bisect f a b args xtol=2e-12 rtol=8.881784197001252e-16 maxiter=100 full_output=False disp=True
scipy.optimize.bracket func xa=0.0 xb=1.0 args grow_limit=110.0 maxiter=1000
scipy.optimize.brent func args brack=None tol=1.48e-08 full_output=0 maxiter=500
scipy.optimize.brenth f a b args xtol=2e-12 rtol=8.881784197001252e-16 maxiter=100 full_output=False disp=True
scipy.optimize.brentq f a b args xtol=2e-12 rtol=8.881784197001252e-16 maxiter=100 full_output=False disp=True
scipy.optimize.broyden1 F xin iter=None alpha=None reduction_method='restart' max_rank=None verbose=False maxiter=None f_tol=None f_rtol=None x_tol=None x_rtol=None tol_norm=None line_search='armijo' callback=None
scipy.optimize.broyden2 F xin iter=None alpha=None reduction_method='restart' max_rank=None verbose=False maxiter=None f_tol=None f_rtol=None x_tol=None x_rtol=None tol_norm=None line_search='armijo' callback=None
scipy.optimize.brute func ranges args Ns=20 full_output=0 finish disp=False workers=1
scipy.optimize.curve_fit f xdata ydata p0=None sigma=None absolute_sigma=False check_finite=None bounds method=None jac=None full_output=False nan_policy=None
scipy.optimize.diagbroyden F xin iter=None alpha=None verbose=False maxiter=None f_tol=None f_rtol=None x_tol=None x_rtol=None tol_norm=None line_search='armijo' callback=None
scipy.optimize.differential_evolution func bounds args strategy='best1bin' maxiter=1000 popsize=15 tol=0.01 mutation recombination=0.7 rng=None callback=None disp=False polish=True init='latinhypercube' atol=0 updating='immediate' workers=1 constraints x0=None integrality=None vectorized=False seed=None
scipy.optimize.direct func bounds args eps=0.0001 maxfun=None maxiter=1000 locally_biased=True f_min f_min_rtol=0.0001 vol_tol=1e-16 len_tol=1e-06 callback=None
scipy.optimize.dual_annealing func bounds args maxiter=1000 minimizer_kwargs=None initial_temp=5230.0 restart_temp_ratio=2e-05 visit=2.62 accept=-5.0 maxfun=10000000.0 rng=None no_local_search=False callback=None x0=None seed=None
scipy.optimize.excitingmixing F xin iter=None alpha=None alphamax=1.0 verbose=False maxiter=None f_tol=None f_rtol=None x_tol=None x_rtol=None tol_norm=None line_search='armijo' callback=None
scipy.optimize.fixed_point func x0 args xtol=1e-08 maxiter=500 method='del2'
scipy.optimize.fmin func x0 args xtol=0.0001 ftol=0.0001 maxiter=None maxfun=None full_output=0 disp=1 retall=0 callback=None initial_simplex=None
scipy.optimize.fmin_bfgs f x0 fprime=None args gtol=1e-05 norm epsilon=1.4901161193847656e-08 maxiter=None full_output=0 disp=1 retall=0 callback=None xrtol=0 c1=0.0001 c2=0.9 hess_inv0=None
scipy.optimize.fmin_cg f x0 fprime=None args gtol=1e-05 norm epsilon=1.4901161193847656e-08 maxiter=None full_output=0 disp=1 retall=0 callback=None c1=0.0001 c2=0.4
scipy.optimize.fmin_cobyla func x0 cons args consargs=None rhobeg=1.0 rhoend=0.0001 maxfun=1000 disp=None catol=0.0002 callback=None
scipy.optimize.fmin_l_bfgs_b func x0 fprime=None args approx_grad=0 bounds=None m=10 factr=10000000.0 pgtol=1e-05 epsilon=1e-08 maxfun=15000 maxiter=15000 callback=None maxls=20
scipy.optimize.fmin_ncg f x0 fprime fhess_p=None fhess=None args avextol=1e-05 epsilon=1.4901161193847656e-08 maxiter=None full_output=0 disp=1 retall=0 callback=None c1=0.0001 c2=0.9
scipy.optimize.fmin_powell func x0 args xtol=0.0001 ftol=0.0001 maxiter=None maxfun=None full_output=0 disp=1 retall=0 callback=None direc=None
scipy.optimize.fmin_slsqp func x0 eqcons f_eqcons=None ieqcons f_ieqcons=None bounds fprime=None fprime_eqcons=None fprime_ieqcons=None args iter=100 acc=1e-06 iprint=1 disp=None full_output=0 epsilon=1.4901161193847656e-08 callback=None
scipy.optimize.fmin_tnc func x0 fprime=None args approx_grad=0 bounds=None epsilon=1e-08 scale=None offset=None messages=15 maxCGit=-1 maxfun=None eta=-1 stepmx=0 accuracy=0 fmin=0 ftol=-1 xtol=-1 pgtol=-1 rescale=-1 disp=None callback=None
scipy.optimize.fminbound func x1 x2 args xtol=1e-05 maxfun=500 full_output=0 disp=1
scipy.optimize.fsolve func x0 args fprime=None full_output=False col_deriv=False xtol=1.49012e-08 maxfev=0 band=None epsfcn=None factor=100 diag=None
scipy.optimize.golden func args brack=None tol=1.4901161193847656e-08 full_output=0 maxiter=5000
scipy.optimize.isotonic_regression y weights=None increasing=True
scipy.optimize.least_squares fun x0 jac='2-point' bounds method='trf' ftol=1e-08 xtol=1e-08 gtol=1e-08 x_scale=None loss='linear' f_scale=1.0 diff_step=None tr_solver=None tr_options=None jac_sparsity=None max_nfev=None verbose=0 args kwargs=None callback=None workers=None
scipy.optimize.leastsq func x0 args Dfun=None full_output=False col_deriv=False ftol=1.49012e-08 xtol=1.49012e-08 gtol=0.0 maxfev=0 epsfcn=None factor=100 diag=None
scipy.optimize.line_search f myfprime xk pk gfk=None old_fval=None old_old_fval=None args c1=0.0001 c2=0.9 amax=None extra_condition=None maxiter=10
scipy.optimize.linear_sum_assignment cost_matrix maximize=False
scipy.optimize.linearmixing F xin iter=None alpha=None verbose=False maxiter=None f_tol=None f_rtol=None x_tol=None x_rtol=None tol_norm=None line_search='armijo' callback=None
scipy.optimize.linprog c A_ub=None b_ub=None A_eq=None b_eq=None bounds method='highs' callback=None options=None x0=None integrality=None
scipy.optimize.linprog_verbose_callback res
scipy.optimize.lsq_linear A b bounds method='trf' tol=1e-10 lsq_solver=None lsmr_tol=None max_iter=None verbose=0 lsmr_maxiter=None
scipy.optimize.milp c integrality=None bounds=None constraints=None options=None
scipy.optimize.minimize fun x0 args method=None jac=None hess=None hessp=None bounds=None constraints tol=None callback=None options=None
scipy.optimize.minimize_scalar fun bracket=None bounds=None args method=None tol=None options=None
scipy.optimize.newton func x0 fprime=None args tol=1.48e-08 maxiter=50 fprime2=None x1=None rtol=0.0 full_output=False disp=True
scipy.optimize.newton_krylov F xin iter=None rdiff=None method='lgmres' inner_maxiter=20 inner_M=None outer_k=10 verbose=False maxiter=None f_tol=None f_rtol=None x_tol=None x_rtol=None tol_norm=None line_search='armijo' callback=None
scipy.optimize.nnls A b maxiter=None
scipy.optimize.quadratic_assignment A B method='faq' options=None
scipy.optimize.ridder f a b args xtol=2e-12 rtol=8.881784197001252e-16 maxiter=100 full_output=False disp=True
scipy.optimize.root fun x0 args method='hybr' jac=None tol=None callback=None options=None
scipy.optimize.root_scalar f args method=None bracket=None fprime=None fprime2=None x0=None x1=None xtol=None rtol=None maxiter=None options=None
scipy.optimize.rosen x
scipy.optimize.rosen_der x
scipy.optimize.rosen_hess x
scipy.optimize.rosen_hess_prod x p
scipy.optimize.shgo func bounds args constraints=None n=100 iters=1 callback=None minimizer_kwargs=None options=None sampling_method='simplicial' workers=1
scipy.optimize.show_options solver=None method=None disp=True
scipy.optimize.test label='fast' verbose=1 extra_argv=None doctests=False coverage=False tests=None parallel=None
scipy.optimize.toms748 f a b args k=1 xtol=2e-12 rtol=8.881784197001252e-16 maxiter=100 full_output=False disp=True
skimage.filters.apply_hysteresis_threshold image low high
skimage.filters.butterworth image cutoff_frequency_ratio=0.005 high_pass=True order=2.0 channel_axis=None squared_butterworth=True npad=0
skimage.filters.correlate_sparse image kernel mode='reflect'
skimage.filters.difference_of_gaussians image low_sigma high_sigma=None mode='nearest' cval=0 channel_axis=None truncate=4.0
skimage.filters.farid image mask=None axis=None mode='reflect' cval=0.0
skimage.filters.farid_h image mask=None
skimage.filters.farid_v image mask=None
skimage.filters.filter_forward data impulse_response=None filter_params=None predefined_filter=None
skimage.filters.filter_inverse data impulse_response=None filter_params=None max_gain=2 predefined_filter=None
skimage.filters.frangi image sigmas scale_range=None scale_step=None alpha=0.5 beta=0.5 gamma=None black_ridges=True mode='reflect' cval=0
skimage.filters.gabor image frequency theta=0 bandwidth=1 sigma_x=None sigma_y=None n_stds=3 offset=0 mode='reflect' cval=0
skimage.filters.gabor_kernel frequency theta=0 bandwidth=1 sigma_x=None sigma_y=None n_stds=3 offset=0 dtype
skimage.filters.gaussian image sigma=1.0 mode='nearest' cval=0 preserve_range=False truncate=4.0 channel_axis=None out=None
skimage.filters.hessian image sigmas scale_range=None scale_step=None alpha=0.5 beta=0.5 gamma=15 black_ridges=True mode='reflect' cval=0
skimage.filters.laplace image ksize=3 mask=None
skimage.filters.median image footprint=None out=None mode='nearest' cval=0.0 behavior='ndimage'
skimage.filters.meijering image sigmas alpha=None black_ridges=True mode='reflect' cval=0
skimage.filters.prewitt image mask=None axis=None mode='reflect' cval=0.0
skimage.filters.prewitt_h image mask=None
skimage.filters.prewitt_v image mask=None
skimage.filters.rank_order image
skimage.filters.roberts image mask=None
skimage.filters.roberts_neg_diag image mask=None
skimage.filters.roberts_pos_diag image mask=None
skimage.filters.sato image sigmas black_ridges=True mode='reflect' cval=0
skimage.filters.scharr image mask=None axis=None mode='reflect' cval=0.0
skimage.filters.scharr_h image mask=None
skimage.filters.scharr_v image mask=None
skimage.filters.sobel image mask=None axis=None mode='reflect' cval=0.0
skimage.filters.sobel_h image mask=None
skimage.filters.sobel_v image mask=None
skimage.filters.threshold_isodata image=None nbins=256 return_all=False hist=None
skimage.filters.threshold_li image tolerance=None initial_guess=None iter_callback=None
skimage.filters.threshold_local image block_size=3 method='gaussian' offset=0 mode='reflect' param=None cval=0
skimage.filters.threshold_mean image
skimage.filters.threshold_minimum image=None nbins=256 max_num_iter=10000 hist=None
skimage.filters.threshold_multiotsu image=None classes=3 nbins=256 hist=None
skimage.filters.threshold_niblack image window_size=15 k=0.2
skimage.filters.threshold_otsu image=None nbins=256 hist=None
skimage.filters.threshold_sauvola image window_size=15 k=0.2 r=None
skimage.filters.threshold_triangle image nbins=256
skimage.filters.threshold_yen image=None nbins=256 hist=None
skimage.filters.try_all_threshold image figsize verbose=True
skimage.filters.unsharp_mask image radius=1.0 amount=1.0 preserve_range=False channel_axis=None
skimage.filters.wiener data impulse_response=None filter_params=None K=0.25 predefined_filter=None
skimage.filters.window window_type shape warp_kwargs=None
skimage.measure.approximate_polygon coords tolerance
skimage.measure.block_reduce image block_size=2 func cval=0 func_kwargs=None
skimage.measure.blur_effect image h_size=11 channel_axis=None reduce_func
skimage.measure.centroid image spacing=None
skimage.measure.euler_number image connectivity=None
skimage.measure.find_contours image level=None fully_connected='low' positive_orientation='low' mask=None
skimage.measure.grid_points_in_poly shape verts binarize=True
skimage.measure.inertia_tensor image mu=None spacing=None
skimage.measure.inertia_tensor_eigvals image mu=None T=None spacing=None
skimage.measure.intersection_coeff image0_mask image1_mask mask=None
skimage.measure.label label_image background=None return_num=False connectivity=None
skimage.measure.manders_coloc_coeff image0 image1_mask mask=None
skimage.measure.manders_overlap_coeff image0 image1 mask=None
skimage.measure.marching_cubes volume level=None spacing gradient_direction='descent' step_size=1 allow_degenerate=True method='lewiner' mask=None
skimage.measure.mesh_surface_area verts faces
skimage.measure.moments image order=3 spacing=None
skimage.measure.moments_central image center=None order=3 spacing=None
skimage.measure.moments_coords coords order=3
skimage.measure.moments_coords_central coords center=None order=3
skimage.measure.moments_hu nu
skimage.measure.moments_normalized mu order=3 spacing=None
skimage.measure.pearson_corr_coeff image0 image1 mask=None
skimage.measure.perimeter image neighborhood=4
skimage.measure.perimeter_crofton image directions=4
skimage.measure.points_in_poly points verts
skimage.measure.profile_line image src dst linewidth=1 order=None mode='reflect' cval=0.0 reduce_func
skimage.measure.ransac data model_class min_samples residual_threshold is_data_valid=None is_model_valid=None max_trials=100 stop_sample_num stop_residuals_sum=0 stop_probability=1 rng=None initial_inliers=None
skimage.measure.regionprops label_image intensity_image=None cache=True extra_properties=None spacing=None offset=None
skimage.measure.regionprops_table label_image intensity_image=None properties cache=True separator='-' extra_properties=None spacing=None
skimage.measure.shannon_entropy image base=2
skimage.measure.subdivide_polygon coords degree=2 preserve_ends=False
skimage.morphology.area_closing image area_threshold=64 connectivity=1 parent=None tree_traverser=None
skimage.morphology.area_opening image area_threshold=64 connectivity=1 parent=None tree_traverser=None
skimage.morphology.ball radius dtype strict_radius=True decomposition=None
skimage.morphology.binary_closing image footprint=None out=None mode='ignore'
skimage.morphology.binary_dilation image footprint=None out=None mode='ignore'
skimage.morphology.binary_erosion image footprint=None out=None mode='ignore'
skimage.morphology.binary_opening image footprint=None out=None mode='ignore'
skimage.morphology.black_tophat image footprint=None out=None mode='reflect' cval=0.0
skimage.morphology.closing image footprint=None out=None mode='reflect' cval=0.0
skimage.morphology.convex_hull_image image offset_coordinates=True tolerance=1e-10 include_borders=True
skimage.morphology.convex_hull_object image connectivity=2
skimage.morphology.cube width dtype decomposition=None
skimage.morphology.diameter_closing image diameter_threshold=8 connectivity=1 parent=None tree_traverser=None
skimage.morphology.diameter_opening image diameter_threshold=8 connectivity=1 parent=None tree_traverser=None
skimage.morphology.diamond radius dtype decomposition=None
skimage.morphology.dilation image footprint=None out=None mode='reflect' cval=0.0
skimage.morphology.disk radius dtype strict_radius=True decomposition=None
skimage.morphology.ellipse width height dtype decomposition=None
skimage.morphology.erosion image footprint=None out=None mode='reflect' cval=0.0
skimage.morphology.flood image seed_point footprint=None connectivity=None tolerance=None
skimage.morphology.flood_fill image seed_point new_value footprint=None connectivity=None tolerance=None in_place=False
skimage.morphology.footprint_from_sequence footprints
skimage.morphology.footprint_rectangle shape dtype decomposition=None
skimage.morphology.h_maxima image h footprint=None
skimage.morphology.h_minima image h footprint=None
skimage.morphology.isotropic_closing image radius out=None spacing=None
skimage.morphology.isotropic_dilation image radius out=None spacing=None
skimage.morphology.isotropic_erosion image radius out=None spacing=None
skimage.morphology.isotropic_opening image radius out=None spacing=None
skimage.morphology.label label_image background=None return_num=False connectivity=None
skimage.morphology.local_maxima image footprint=None connectivity=None indices=False allow_borders=True
skimage.morphology.local_minima image footprint=None connectivity=None indices=False allow_borders=True
skimage.morphology.max_tree image connectivity=1
skimage.morphology.max_tree_local_maxima image connectivity=1 parent=None tree_traverser=None
skimage.morphology.medial_axis image mask=None return_distance=False rng=None
skimage.morphology.mirror_footprint footprint
skimage.morphology.octagon m n dtype decomposition=None
skimage.morphology.octahedron radius dtype decomposition=None
skimage.morphology.opening image footprint=None out=None mode='reflect' cval=0.0
skimage.morphology.pad_footprint footprint pad_end=True
skimage.morphology.reconstruction seed mask method='dilation' footprint=None offset=None
skimage.morphology.rectangle nrows ncols dtype decomposition=None
skimage.morphology.remove_objects_by_distance label_image min_distance priority=None p_norm=2 spacing=None out=None
skimage.morphology.remove_small_holes ar area_threshold connectivity=1 max_size=64 out=None
skimage.morphology.remove_small_objects ar min_size connectivity=1 max_size=64 out=None
skimage.morphology.skeletonize image method=None
skimage.morphology.square width dtype decomposition=None
skimage.morphology.star a dtype
skimage.morphology.thin image max_num_iter=None
skimage.morphology.white_tophat image footprint=None out=None mode='reflect' cval=0.0
skimage.segmentation.active_contour image snake alpha=0.01 beta=0.1 w_line=0.0 w_edge=1 gamma=0.01 max_px_move=1.0 max_num_iter=2500 convergence=0.1 boundary_condition='periodic'
skimage.segmentation.chan_vese image mu=0.25 lambda1=1.0 lambda2=1.0 tol=0.001 max_num_iter=500 dt=0.5 init_level_set='checkerboard' extended_output=False
skimage.segmentation.checkerboard_level_set image_shape square_size=5
skimage.segmentation.clear_border labels buffer_size=0 bgval=0 mask=None out=None
skimage.segmentation.disk_level_set image_shape center=None radius=None
skimage.segmentation.expand_labels label_image distance=1 spacing=1
skimage.segmentation.felzenszwalb image scale=1 sigma=0.8 min_size=20 channel_axis=-1
skimage.segmentation.find_boundaries label_img connectivity=1 mode='thick' background=0
skimage.segmentation.flood image seed_point footprint=None connectivity=None tolerance=None
skimage.segmentation.flood_fill image seed_point new_value footprint=None connectivity=None tolerance=None in_place=False
skimage.segmentation.inverse_gaussian_gradient image alpha=100.0 sigma=5.0
skimage.segmentation.join_segmentations s1 s2 return_mapping=False
skimage.segmentation.mark_boundaries image label_img color outline_color=None mode='outer' background_label=0
skimage.segmentation.morphological_chan_vese image num_iter init_level_set='checkerboard' smoothing=1 lambda1=1 lambda2=1 iter_callback
skimage.segmentation.morphological_geodesic_active_contour gimage num_iter init_level_set='disk' smoothing=1 threshold='auto' balloon=0 iter_callback
skimage.segmentation.quickshift image ratio=1.0 kernel_size=5 max_dist=10 return_tree=False sigma=0 convert2lab=True rng=42 channel_axis=-1
skimage.segmentation.random_walker data labels beta=130 mode='cg_j' tol=0.001 copy=True return_full_prob=False spacing=None prob_tol=0.001 channel_axis=None
skimage.segmentation.relabel_sequential label_field offset=1
skimage.segmentation.slic image n_segments=100 compactness=10.0 max_num_iter=10 sigma=0 spacing=None convert2lab=None enforce_connectivity=True min_size_factor=0.5 max_size_factor=3 slic_zero=False start_label=1 mask=None channel_axis=-1
skimage.segmentation.watershed image markers=None connectivity=1 offset=None mask=None compactness=0 watershed_line=False
skimage.transform.downscale_local_mean image factors cval=0 clip=True
skimage.transform.frt2 a
skimage.transform.hough_circle image radius normalize=True full_output=False
skimage.transform.hough_circle_peaks hspaces radii min_xdistance=1 min_ydistance=1 threshold=None num_peaks total_num_peaks normalize=False
skimage.transform.hough_ellipse image threshold=4 accuracy=1 min_size=4 max_size=None
skimage.transform.hough_line image theta=None
skimage.transform.hough_line_peaks hspace angles dists min_distance=9 min_angle=10 threshold=None num_peaks
skimage.transform.ifrt2 a
skimage.transform.integral_image image dtype=None
skimage.transform.integrate ii start end
skimage.transform.iradon radon_image theta=None output_size=None filter_name='ramp' interpolation='linear' circle=True preserve_range=True
skimage.transform.iradon_sart radon_image theta=None image=None projection_shifts=None clip=None relaxation=0.15 dtype=None
skimage.transform.matrix_transform coords matrix
skimage.transform.order_angles_golden_ratio theta
skimage.transform.probabilistic_hough_line image threshold=10 line_length=50 line_gap=10 theta=None rng=None
skimage.transform.pyramid_expand image upscale=2 sigma=None order=1 mode='reflect' cval=0 preserve_range=False channel_axis=None
skimage.transform.pyramid_gaussian image max_layer=-1 downscale=2 sigma=None order=1 mode='reflect' cval=0 preserve_range=False channel_axis=None
skimage.transform.pyramid_laplacian image max_layer=-1 downscale=2 sigma=None order=1 mode='reflect' cval=0 preserve_range=False channel_axis=None
skimage.transform.pyramid_reduce image downscale=2 sigma=None order=1 mode='reflect' cval=0 preserve_range=False channel_axis=None
skimage.transform.radon image theta=None circle=True preserve_range=False
skimage.transform.rescale image scale order=None mode='reflect' cval=0 clip=True preserve_range=False anti_aliasing=None anti_aliasing_sigma=None channel_axis=None
skimage.transform.resize image output_shape order=None mode='reflect' cval=0 clip=True preserve_range=False anti_aliasing=None anti_aliasing_sigma=None
skimage.transform.resize_local_mean image output_shape grid_mode=True preserve_range=False channel_axis=None
skimage.transform.rotate image angle resize=False center=None order=None mode='constant' cval=0 clip=True preserve_range=False
skimage.transform.swirl image center=None strength=1 radius=100 rotation=0 output_shape=None order=None mode='reflect' cval=0 clip=True preserve_range=False
skimage.transform.warp image inverse_map map_args=None output_shape=None order=None mode='constant' cval=0.0 clip=True preserve_range=False
skimage.transform.warp_coords coord_map shape dtype
skimage.transform.warp_polar image center=None radius=None output_shape=None scaling='linear' channel_axis=None
""".splitlines():
    _w = _l.split(' ')
    SIG[_w[0]] = tuple(
        (_p.split('=', 1)[0],) + tuple(
            eval(_d, {}) for _d in _p.split('=', 1)[1:]) for _p in _w[1:])
