"""Public names of the external modules the library uses (recorded from the installed versions)."""

NAMES = {
    'collections': set('ChainMap Counter OrderedDict UserDict UserList UserString _Link _OrderedDictItemsView _OrderedDictKeysView _OrderedDictValuesView __all__ __builtins__ __cached__ __doc__ __file__ __getattr__ __loader__ __name__ __package__ __path__ __spec__ _chain _collections_abc _count_elements _eq _heapq _iskeyword _itemgetter _proxy _recursive_repr _repeat _starmap _sys _tuplegetter abc defaultdict deque namedtuple newdict'.split()),
    'copy': set('Error __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ _copy_dispatch _copy_immutable _deepcopy_atomic _deepcopy_dict _deepcopy_dispatch _deepcopy_list _deepcopy_method _deepcopy_tuple _keep_alive _reconstruct copy deepcopy dispatch_table error'.split()),
    'functools': set('GenericAlias RLock WRAPPER_ASSIGNMENTS WRAPPER_UPDATES _CacheInfo _HashedSeq _NOT_FOUND __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ _c3_merge _c3_mro _compose_mro _convert _find_impl _ge_from_gt _ge_from_le _ge_from_lt _gt_from_ge _gt_from_le _gt_from_lt _initial_missing _le_from_ge _le_from_gt _le_from_lt _lru_cache_wrapper _lt_from_ge _lt_from_gt _lt_from_le _make_key _unwrap_partial cache cached_property cmp_to_key get_cache_token hidden_applevel lru_cache namedtuple partial partialmethod recursive_repr reduce singledispatch singledispatchmethod total_ordering update_wrapper wraps'.split()),
    'inspect': set('ArgInfo ArgSpec Arguments Attribute BlockFinder BoundArguments CORO_CLOSED CORO_CREATED CORO_RUNNING CORO_SUSPENDED CO_ASYNC_GENERATOR CO_COROUTINE CO_GENERATOR CO_ITERABLE_COROUTINE CO_NESTED CO_NEWLOCALS CO_NOFREE CO_OPTIMIZED CO_VARARGS CO_VARKEYWORDS ClassFoundException ClosureVars EndOfBlock FrameInfo FullArgSpec GEN_CLOSED GEN_CREATED GEN_RUNNING GEN_SUSPENDED OrderedDict Parameter Signature TPFLAGS_IS_ABSTRACT Traceback _ClassFinder _ClassMethodWrapper _KEYWORD_ONLY _MethodWrapper _NoValue _NonUserDefinedCallables _PARAM_NAME_MAPPING _POSITIONAL_ONLY _POSITIONAL_OR_KEYWORD _ParameterKind _VAR_KEYWORD _VAR_POSITIONAL _WrapperDescriptor __author__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ _builtin_code_type _check_class _check_instance _dict_attr _empty _filesbymodname _findclass _finddoc _has_code_flag _is_cpyext_function _is_type _main _missing_arguments _no_value _objclass_check _sentinel _shadowed_dict _signature_bound_method _signature_from_builtin _signature_from_callable _signature_from_function _signature_fromstr _signature_get_bound_param _signature_get_partial _signature_get_user_defined_method _signature_is_builtin _signature_is_functionlike _signature_strip_non_python_syntax _static_getmro _too_many _void abc ast attrgetter builtins classify_class_attrs cleandoc collections currentframe dis enum findsource formatannotation formatannotationrelativeto formatargspec formatargvalues functools getabsfile getargs getargspec getargvalues getattr_static getblock getcallargs getclasstree getclosurevars getcomments getcoroutinelocals getcoroutinestate getdoc getfile getframeinfo getfullargspec getgeneratorlocals getgeneratorstate getinnerframes getlineno getmembers getmodule getmodulename getmro getouterframes getsource getsourcefile getsourcelines importlib indentsize isabstract isasyncgen isasyncgenfunction isawaitable isbuiltin isclass iscode iscoroutine iscoroutinefunction isdatadescriptor isframe isfunction isgenerator isgeneratorfunction isgetsetdescriptor ismemberdescriptor ismethod ismethoddescriptor ismodule isroutine istraceback itertools k linecache mod_dict modulesbyfile namedtuple os re signature stack sys token tokenize trace types unwrap v walktree warnings'.split()),
    'numbers': set('ABCMeta Complex Integral Number Rational Real __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ abstractmethod'.split()),
    'numpy': set('ALLOW_THREADS BUFSIZE CLIP DataSource ERR_CALL ERR_DEFAULT ERR_IGNORE ERR_LOG ERR_PRINT ERR_RAISE ERR_WARN FLOATING_POINT_SUPPORT FPE_DIVIDEBYZERO FPE_INVALID FPE_OVERFLOW FPE_UNDERFLOW False_ Inf Infinity MAXDIMS MAY_SHARE_BOUNDS MAY_SHARE_EXACT NAN NINF NZERO NaN PINF PZERO RAISE RankWarning SHIFT_DIVIDEBYZERO SHIFT_INVALID SHIFT_OVERFLOW SHIFT_UNDERFLOW ScalarType True_ UFUNC_BUFSIZE_DEFAULT UFUNC_PYVALS_NAME WRAP _CopyMode _NoValue _UFUNC_API __NUMPY_SETUP__ __all__ __builtins__ __cached__ __config__ __deprecated_attrs__ __dir__ __doc__ __expired_functions__ __file__ __former_attrs__ __future_scalars__ __getattr__ __loader__ __name__ __package__ __path__ __spec__ __version__ _add_newdoc_ufunc _builtins _distributor_init _financial_names _get_promotion_state _globals _int_extended_msg _mat _no_nep50_warning _pyinstaller_hooks_dir _pytesttester _set_promotion_state _specific_msg _typing _using_numpy2_behavior _utils abs absolute add add_docstring add_newdoc add_newdoc_ufunc all allclose alltrue amax amin angle any append apply_along_axis apply_over_axes arange arccos arccosh arcsin arcsinh arctan arctan2 arctanh argmax argmin argpartition argsort argwhere around array array2string array_equal array_equiv array_repr array_split array_str asanyarray asarray asarray_chkfinite ascontiguousarray asfarray asfortranarray asmatrix atleast_1d atleast_2d atleast_3d average bartlett base_repr binary_repr bincount bitwise_and bitwise_not bitwise_or bitwise_xor blackman block bmat bool_ broadcast broadcast_arrays broadcast_shapes broadcast_to busday_count busday_offset busdaycalendar byte byte_bounds bytes_ c_ can_cast cast cbrt cdouble ceil cfloat char character chararray choose clip clongdouble clongfloat column_stack common_type compare_chararrays compat complex128 complex256 complex64 complex_ complexfloating compress concatenate conj conjugate convolve copy copysign copyto corrcoef correlate cos cosh count_nonzero cov cross csingle ctypeslib cumprod cumproduct cumsum datetime64 datetime_as_string datetime_data deg2rad degrees delete deprecate deprecate_with_doc diag diag_indices diag_indices_from diagflat diagonal diff digitize disp divide divmod dot double dsplit dstack dtype dtypes e ediff1d einsum einsum_path emath empty empty_like equal errstate euler_gamma exceptions exp exp2 expand_dims expm1 extract eye fabs fastCopyAndTranspose fft fill_diagonal find_common_type finfo fix flatiter flatnonzero flexible flip fliplr flipud float128 float16 float32 float64 float_ float_power floating floor floor_divide fmax fmin fmod format_float_positional format_float_scientific format_parser frexp from_dlpack frombuffer fromfile fromfunction fromiter frompyfunc fromregex fromstring full full_like gcd generic genfromtxt geomspace get_array_wrap get_include get_printoptions getbufsize geterr geterrcall geterrobj gradient greater greater_equal half hamming hanning heaviside histogram histogram2d histogram_bin_edges histogramdd hsplit hstack hypot i0 identity iinfo imag in1d index_exp indices inexact inf info infty inner insert int16 int32 int64 int8 int_ intc integer interp intersect1d intp invert is_busday isclose iscomplex iscomplexobj isfinite isfortran isin isinf isnan isnat isneginf isposinf isreal isrealobj isscalar issctype issubclass_ issubdtype issubsctype iterable ix_ kaiser kernel_version kron lcm ldexp left_shift less less_equal lexsort lib linalg linspace little_endian load loadtxt log log10 log1p log2 logaddexp logaddexp2 logical_and logical_not logical_or logical_xor logspace longcomplex longdouble longfloat longlong lookfor ma mask_indices mat matmul matrix max maximum maximum_sctype may_share_memory mean median memmap meshgrid mgrid min min_scalar_type minimum mintypecode mod modf moveaxis msort multiply nan nan_to_num nanargmax nanargmin nancumprod nancumsum nanmax nanmean nanmedian nanmin nanpercentile nanprod nanquantile nanstd nansum nanvar nbytes ndarray ndenumerate ndim ndindex nditer negative nested_iters newaxis nextafter nonzero not_equal numarray number obj2sctype object_ ogrid oldnumeric ones ones_like outer packbits pad partition percentile pi piecewise place poly poly1d polyadd polyder polydiv polyfit polyint polymul polynomial polysub polyval positive power printoptions prod product promote_types ptp put put_along_axis putmask quantile r_ rad2deg radians random ravel ravel_multi_index real real_if_close rec recarray recfromcsv recfromtxt reciprocal record remainder repeat require reshape resize result_type right_shift rint roll rollaxis roots rot90 round round_ row_stack s_ safe_eval save savetxt savez savez_compressed sctype2char sctypeDict sctypes searchsorted select set_numeric_ops set_printoptions set_string_function setbufsize setdiff1d seterr seterrcall seterrobj setxor1d shape shares_memory short show_config show_runtime sign signbit signedinteger sin sinc single singlecomplex sinh size sometrue sort sort_complex source spacing split sqrt square squeeze stack std str_ string_ subtract sum swapaxes take take_along_axis tan tanh tensordot test testing tile timedelta64 trace tracemalloc_domain transpose trapz tri tril tril_indices tril_indices_from trim_zeros triu triu_indices triu_indices_from true_divide trunc typecodes typename ubyte ufunc uint uint16 uint32 uint64 uint8 uintc uintp ulonglong unicode_ union1d unique unpackbits unravel_index unsignedinteger unwrap ushort vander var vdot vectorize version void vsplit vstack where who zeros zeros_like'.split()),
    'numpy.linalg': set('LinAlgError __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __path__ __spec__ _umath_linalg cholesky cond det eig eigh eigvals eigvalsh inv linalg lstsq matrix_power matrix_rank multi_dot norm pinv qr slogdet solve svd tensorinv tensorsolve test'.split()),
    'numpy.random': set('BitGenerator Generator MT19937 PCG64 PCG64DXSM Philox RandomState SFC64 SeedSequence __RandomState_ctor __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __path__ __spec__ _bounded_integers _common _generator _mt19937 _pcg64 _philox _pickle _sfc64 beta binomial bit_generator bytes chisquare choice default_rng dirichlet exponential f gamma geometric get_bit_generator get_state gumbel hypergeometric laplace logistic lognormal logseries mtrand multinomial multivariate_normal negative_binomial noncentral_chisquare noncentral_f normal pareto permutation poisson power rand randint randn random random_integers random_sample ranf rayleigh sample seed set_bit_generator set_state shuffle standard_cauchy standard_exponential standard_gamma standard_normal standard_t test triangular uniform vonmises wald weibull zipf'.split()),
    'os': set('DirEntry EX_CANTCREAT EX_CONFIG EX_DATAERR EX_IOERR EX_NOHOST EX_NOINPUT EX_NOPERM EX_NOUSER EX_OK EX_OSERR EX_OSFILE EX_PROTOCOL EX_SOFTWARE EX_TEMPFAIL EX_UNAVAILABLE EX_USAGE F_LOCK F_OK F_TEST F_TLOCK F_ULOCK GenericAlias MFD_ALLOW_SEALING MFD_CLOEXEC MFD_HUGETLB Mapping MutableMapping NGROUPS_MAX O_APPEND O_ASYNC O_CLOEXEC O_CREAT O_DIRECT O_DIRECTORY O_DSYNC O_EXCL O_LARGEFILE O_NDELAY O_NOATIME O_NOCTTY O_NOFOLLOW O_NONBLOCK O_RDONLY O_RDWR O_RSYNC O_SYNC O_TRUNC O_WRONLY POSIX_FADV_DONTNEED POSIX_FADV_NOREUSE POSIX_FADV_NORMAL POSIX_FADV_RANDOM POSIX_FADV_SEQUENTIAL POSIX_FADV_WILLNEED PRIO_PGRP PRIO_PROCESS PRIO_USER P_NOWAIT P_NOWAITO P_WAIT PathLike RTLD_DEEPBIND RTLD_GLOBAL RTLD_LAZY RTLD_LOCAL RTLD_NODELETE RTLD_NOLOAD RTLD_NOW R_OK SCHED_BATCH SCHED_FIFO SCHED_OTHER SCHED_RR SEEK_CUR SEEK_END SEEK_SET TMP_MAX WCONTINUED WCOREDUMP WEXITSTATUS WIFCONTINUED WIFEXITED WIFSIGNALED WIFSTOPPED WNOHANG WSTOPSIG WTERMSIG WUNTRACED W_OK XATTR_CREATE XATTR_REPLACE XATTR_SIZE_MAX X_OK _Environ __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ _check_methods _execvpe _exists _exit _fspath _fwalk _get_exports_list _spawnvef _walk _wrap_close abc abort access altsep chdir chmod chown chroot close closerange confstr confstr_names cpu_count ctermid curdir defpath device_encoding devnull dup dup2 environ environb error execl execle execlp execlpe execv execve execvp execvpe extsep fchdir fchmod fchown fdatasync fdopen fork forkpty fpathconf fsdecode fsencode fspath fstat fstatvfs fsync ftruncate fwalk get_blocking get_exec_path get_inheritable get_terminal_size getcwd getcwdb getegid getenv getenvb geteuid getgid getgrouplist getgroups getloadavg getlogin getpgid getpgrp getpid getppid getpriority getresgid getresuid getsid getuid getxattr initgroups isatty kill killpg lchown linesep link listdir listxattr lockf lseek lstat major makedev makedirs memfd_create minor mkdir mkfifo mknod name nice open openpty pardir path pathconf pathconf_names pathsep pipe pipe2 popen posix_fadvise posix_fallocate pread putenv pwrite read readlink register_at_fork remove removedirs removexattr rename renames replace rmdir scandir sched_get_priority_max sched_get_priority_min sched_getparam sched_getscheduler sched_param sched_rr_get_interval sched_setparam sched_setscheduler sched_yield sendfile sep set_blocking set_inheritable setegid seteuid setgid setgroups setpgid setpgrp setpriority setregid setresgid setresuid setreuid setsid setuid setxattr spawnl spawnle spawnlp spawnlpe spawnv spawnve spawnvp spawnvpe st stat stat_float_times stat_result statvfs statvfs_result strerror supports_bytes_environ supports_dir_fd supports_effective_ids supports_fd supports_follow_symlinks symlink sync sys sysconf sysconf_names system tcgetpgrp tcsetpgrp terminal_size times times_result truncate ttyname umask uname uname_result unlink unsetenv urandom utime wait wait3 wait4 waitpid waitstatus_to_exitcode walk write'.split()),
    'os.path': set('__all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ _get_sep _joinrealpath _varprog _varprogb abspath altsep basename commonpath commonprefix curdir defpath devnull dirname exists expanduser expandvars extsep genericpath getatime getctime getmtime getsize isabs isdir isfile islink ismount join lexists normcase normpath os pardir pathsep realpath relpath samefile sameopenfile samestat sep split splitdrive splitext stat supports_unicode_filenames sys'.split()),
    'scipy.optimize': set('BFGS Bounds BroydenFirst HessianUpdateStrategy InverseJacobian KrylovJacobian LbfgsInvHessProduct LinearConstraint NoConvergence NonlinearConstraint OptimizeResult OptimizeWarning RootResults SR1 __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __path__ __spec__ _basinhopping _bglu_dense _cobyla _cobyla_py _constraints _dcsrch _differentiable_functions _differentialevolution _direct _direct_py _dual_annealing _group_columns _hessian_update_strategy _highs _isotonic _lbfgsb _lbfgsb_py _linesearch _linprog _linprog_doc _linprog_highs _linprog_ip _linprog_rs _linprog_simplex _linprog_util _lsap _lsq _milp _minimize _minpack _minpack2 _minpack_py _moduleTNC _nnls _nonlin _numdiff _optimize _pava_pybind _qap _remove_redundancy _root _root_scalar _shgo _shgo_lib _slsqp _slsqp_py _spectral _tnc _trlib _trustregion _trustregion_constr _trustregion_dogleg _trustregion_exact _trustregion_krylov _trustregion_ncg _zeros _zeros_py anderson approx_fprime basinhopping bisect bracket brent brenth brentq broyden1 broyden2 brute check_grad cobyla curve_fit diagbroyden differential_evolution direct dual_annealing excitingmixing fixed_point fmin fmin_bfgs fmin_cg fmin_cobyla fmin_l_bfgs_b fmin_ncg fmin_powell fmin_slsqp fmin_tnc fminbound fsolve golden isotonic_regression lbfgsb least_squares leastsq line_search linear_sum_assignment linearmixing linesearch linprog linprog_verbose_callback lsq_linear milp minimize minimize_scalar minpack minpack2 moduleTNC newton newton_krylov nnls nonlin optimize quadratic_assignment ridder root root_scalar rosen rosen_der rosen_hess rosen_hess_prod shgo show_options slsqp test tnc toms748 zeros'.split()),
    'scipy.sparse': set('SparseEfficiencyWarning SparseWarning __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __path__ __spec__ _base _bsr _compressed _construct _coo _csc _csparsetools _csr _data _dia _dok _extract _index _lil _matrix _matrix_io _sparsetools _sputils _warnings base block_array block_diag bmat bsr bsr_array bsr_matrix compressed construct coo coo_array coo_matrix csc csc_array csc_matrix csgraph csr csr_array csr_matrix data dia dia_array dia_matrix diags diags_array dok dok_array dok_matrix extract eye eye_array find hstack identity issparse isspmatrix isspmatrix_bsr isspmatrix_coo isspmatrix_csc isspmatrix_csr isspmatrix_dia isspmatrix_dok isspmatrix_lil kron kronsum lil lil_array lil_matrix linalg load_npz msg rand random random_array save_npz sparray sparsetools spdiags spmatrix sputils test tril triu vstack'.split()),
    'scipy.sparse.linalg': set('ArpackError ArpackNoConvergence LaplacianNd LinearOperator MatrixRankWarning SuperLU __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __path__ __spec__ _dsolve _eigen _expm_multiply _interface _isolve _matfuncs _norm _onenormest _propack _special_sparse_arrays _svdp aslinearoperator bicg bicgstab cg cgs dsolve eigen eigs eigsh expm expm_multiply factorized gcrotmk gmres interface inv isolve lgmres lobpcg lsmr lsqr matfuncs matrix_power minres norm onenormest qmr spilu splu spsolve spsolve_triangular svds test tfqmr use_solver'.split()),
    'scipy.special': set('SpecialFunctionError SpecialFunctionWarning __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __path__ __spec__ _basic _cdflib _comb _depr_msg _ellip_harm _ellip_harm_2 _get_include _lambertw _logsumexp _orthogonal _sf_error _specfun _spfun_stats _spherical_bessel _support_alternative_backends _ufuncs _ufuncs_cxx add_newdocs agm ai_zeros airy airye assoc_laguerre basic bdtr bdtrc bdtri bdtrik bdtrin bei bei_zeros beip beip_zeros ber ber_zeros bernoulli berp berp_zeros besselpoly beta betainc betaincc betainccinv betaincinv betaln bi_zeros binom boxcox boxcox1p btdtr btdtri btdtria btdtrib c_roots cbrt cg_roots chdtr chdtrc chdtri chdtriv chebyc chebys chebyt chebyu chndtr chndtridf chndtrinc chndtrix clpmn comb cosdg cosm1 cotdg dawsn digamma diric ellip_harm ellip_harm_2 ellip_normal ellipe ellipeinc ellipj ellipk ellipkinc ellipkm1 elliprc elliprd elliprf elliprg elliprj entr erf erf_zeros erfc erfcinv erfcx erfi erfinv errstate euler eval_chebyc eval_chebys eval_chebyt eval_chebyu eval_gegenbauer eval_genlaguerre eval_hermite eval_hermitenorm eval_jacobi eval_laguerre eval_legendre eval_sh_chebyt eval_sh_chebyu eval_sh_jacobi eval_sh_legendre exp1 exp10 exp2 expi expit expm1 expn exprel factorial factorial2 factorialk fdtr fdtrc fdtri fdtridfd fresnel fresnel_zeros fresnelc_zeros fresnels_zeros gamma gammainc gammaincc gammainccinv gammaincinv gammaln gammasgn gdtr gdtrc gdtria gdtrib gdtrix gegenbauer genlaguerre geterr h1vp h2vp h_roots hankel1 hankel1e hankel2 hankel2e he_roots hermite hermitenorm huber hyp0f1 hyp1f1 hyp2f1 hyperu i0 i0e i1 i1e inv_boxcox inv_boxcox1p it2i0k0 it2j0y0 it2struve0 itairy iti0k0 itj0y0 itmodstruve0 itstruve0 iv ive ivp j0 j1 j_roots jacobi jn jn_zeros jnjnp_zeros jnp_zeros jnyn_zeros js_roots jv jve jvp k0 k0e k1 k1e kei kei_zeros keip keip_zeros kelvin kelvin_zeros ker ker_zeros kerp kerp_zeros kl_div kn kolmogi kolmogorov kv kve kvp l_roots la_roots laguerre lambertw legendre lmbda log1p log_expit log_ndtr log_softmax loggamma logit logsumexp lpmn lpmv lpn lqmn lqn mathieu_a mathieu_b mathieu_cem mathieu_even_coef mathieu_modcem1 mathieu_modcem2 mathieu_modsem1 mathieu_modsem2 mathieu_odd_coef mathieu_sem modfresnelm modfresnelp modstruve multigammaln nbdtr nbdtrc nbdtri nbdtrik nbdtrin ncfdtr ncfdtri ncfdtridfd ncfdtridfn ncfdtrinc nctdtr nctdtridf nctdtrinc nctdtrit ndtr ndtri ndtri_exp nrdtrimn nrdtrisd obl_ang1 obl_ang1_cv obl_cv obl_cv_seq obl_rad1 obl_rad1_cv obl_rad2 obl_rad2_cv orthogonal owens_t p_roots pbdn_seq pbdv pbdv_seq pbvv pbvv_seq pbwa pdtr pdtrc pdtri pdtrik perm poch polygamma powm1 pro_ang1 pro_ang1_cv pro_cv pro_cv_seq pro_rad1 pro_rad1_cv pro_rad2 pro_rad2_cv ps_roots pseudo_huber psi radian rel_entr rgamma riccati_jn riccati_yn roots_chebyc roots_chebys roots_chebyt roots_chebyu roots_gegenbauer roots_genlaguerre roots_hermite roots_hermitenorm roots_jacobi roots_laguerre roots_legendre roots_sh_chebyt roots_sh_chebyu roots_sh_jacobi roots_sh_legendre round s_roots seterr sf_error sh_chebyt sh_chebyu sh_jacobi sh_legendre shichi sici sinc sindg smirnov smirnovi softmax specfun spence spfun_stats sph_harm spherical_in spherical_jn spherical_kn spherical_yn stdtr stdtridf stdtrit stirling2 struve t_roots tandg test tklmbda ts_roots u_roots us_roots voigt_profile warnings wofz wright_bessel wrightomega xlog1py xlogy y0 y0_zeros y1 y1_zeros y1p_zeros yn yn_zeros ynp_zeros yv yve yvp zeta zetac'.split()),
    'time': set('CLOCK_BOOTTIME CLOCK_MONOTONIC CLOCK_MONOTONIC_COARSE CLOCK_MONOTONIC_RAW CLOCK_PROCESS_CPUTIME_ID CLOCK_REALTIME CLOCK_REALTIME_COARSE CLOCK_THREAD_CPUTIME_ID _STRUCT_TM_ITEMS __doc__ __loader__ __name__ __package__ __spec__ _get_time_info altzone asctime clock clock_getres clock_gettime clock_gettime_ns clock_settime clock_settime_ns ctime daylight get_clock_info gmtime localtime mktime monotonic monotonic_ns perf_counter perf_counter_ns process_time process_time_ns sleep strftime strptime struct_time thread_time thread_time_ns time time_ns timezone tzname tzset'.split()),
    'warnings': set('WarningMessage _OptionError __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ _add_filter _defaultaction _filters_mutated _formatwarning_orig _formatwarnmsg _formatwarnmsg_impl _getaction _getcategory _is_internal_frame _next_external_frame _onceregistry _processoptions _setoption _showwarning_orig _showwarnmsg _showwarnmsg_impl _warn_unawaited_coroutine catch_warnings defaultaction filters filterwarnings formatwarning onceregistry resetwarnings showwarning simplefilter sys warn warn_explicit'.split()),
    'weakref': set('CallableProxyType KeyedRef ProxyType ProxyTypes ReferenceType WeakKeyDictionary WeakMethod WeakSet WeakValueDictionary _IterationGuard __all__ __builtins__ __cached__ __doc__ __file__ __loader__ __name__ __package__ __spec__ _collections_abc _delitem_if_value_is _remove_dead_weakref finalize getweakrefcount getweakrefs itertools proxy ref sys'.split()),
}
