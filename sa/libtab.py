"""Names: which names mean the same operation, which classes a kind of value belongs to."""

CANON = [
    ("attr.validators", "attrs.validators"), ("attr.", "attrs."), ("numpy.random.mtrand", "numpy.random"),
    ("os.path.isfile", "isfile"), ("os.path.exists", "exists"), ("os.path.isdir", "isdir"), ("os.path.samefile", "samefile"),
]

BUILTINS = set(
    "len range enumerate zip map filter sorted reversed list tuple dict set frozenset str int float bool bytes bytearray abs min max "
    "sum any all isinstance issubclass hasattr getattr setattr delattr print type vars repr format id iter next callable open round "
    "pow divmod hash object property staticmethod classmethod super complex slice input globals locals chr ord memoryview eval exec "
    "Exception BaseException AssertionError KeyError ValueError TypeError AttributeError NotImplementedError RuntimeError OSError "
    "FileNotFoundError IOError IndexError LookupError StopIteration ZeroDivisionError SystemExit KeyboardInterrupt ImportError NameError "
    "FileExistsError PermissionError UserWarning DeprecationWarning RuntimeWarning Warning FutureWarning UnicodeDecodeError ArithmeticError "
    "OverflowError FloatingPointError EOFError TimeoutError ConnectionError ModuleNotFoundError RecursionError MemoryError GeneratorExit".split()
)

# names of the same operation
ALIAS = {
    "numpy.sum": "sum", "numpy.mean": "mean", "numpy.average": "mean", "numpy.std": "std", "numpy.var": "var", "numpy.median": "median",
    "numpy.min": "min", "numpy.amin": "min", "numpy.max": "max", "numpy.amax": "max", "numpy.prod": "prod", "numpy.nanmin": "nanmin",
    "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "math.sqrt": "numpy.sqrt", "math.log10": "numpy.log10", "math.log": "numpy.log",
    "math.exp": "numpy.exp", "math.sin": "numpy.sin", "math.cos": "numpy.cos", "math.isnan": "numpy.isnan", "math.isinf": "numpy.isinf",
    "object.__setattr__": "setattr", "object.__getattribute__": "getattr", "math.isfinite": "numpy.isfinite", "numpy.asarray": "numpy.array", "numpy.float64": "float", "numpy.float32": "float32", "numpy.bool_": "bool",
    "numpy.copy": "copy", "copy.copy": "copy", "copy.deepcopy": "deepcopy", "numpy.squeeze": "squeeze", "numpy.ravel": "flatten",
    "numpy.bitwise_and": "numpy.logical_and", "numpy.bitwise_or": "numpy.logical_or", "numpy.bitwise_not": "numpy.invert",
    "os.getcwd": "cwd", "numpy.transpose": "transpose", "numpy.floor_divide": "floordiv", "math.floor": "numpy.floor", "math.ceil": "numpy.ceil",
    "math.fsum": "sum", "os.cpu_count": "multiprocessing.cpu_count", "numpy.isneginf": "numpy.isneginf", "numpy.any": "any", "numpy.all": "all",
    "pandas.isnull": "pandas.isna", "numpy.round": "round", "numpy.around": "round", "numpy.diff": "numpy.diff", "numpy.ptp": "ptp",
    "numpy.ndim": "ndim", "numpy.size": "size", "numpy.shape": "shape", "operator.getitem": "getitem",
}
NUMCONST = {"math.pi": "numpy.pi", "math.inf": "numpy.inf", "math.nan": "numpy.nan", "numpy.Inf": "numpy.inf", "numpy.NaN": "numpy.nan",
            "numpy.infty": "numpy.inf", "scipy.pi": "numpy.pi", "scipy.constants.pi": "numpy.pi", "pandas.NA": "numpy.nan", "numpy.NAN": "numpy.nan"}

METHODS_SAME = {  # methods that are the same operation as a function
    "sum", "mean", "std", "var", "median", "min", "max", "prod", "sem", "squeeze", "transpose", "round", "any", "all", "clip",
}
STRMETH = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "split", "rsplit", "removeprefix", "removesuffix",
           "ljust", "rjust", "isdigit", "isnumeric", "isdecimal", "title", "capitalize", "casefold", "zfill", "partition", "rpartition", "find", "index", "count"}

KINDCLS = {
    "int": {"int"}, "float": {"float"}, "bool": {"bool"}, "str": {"str"}, "bytes": {"bytes"}, "none": {"NoneType"}, "list": {"list"},
    "tuple": {"tuple"}, "dict": {"dict"}, "set": {"set"}, "path": {"pathlib.Path"}, "array": {"numpy.ndarray"}, "boolarray": {"numpy.ndarray"},
    "df": {"pandas.DataFrame"}, "series": {"pandas.Series"}, "quantity": {"pint.Quantity"}, "timestamp": {"pandas.Timestamp"},
    "func": {"function"}, "range": {"range"}, "rng": {"rng"}, "h5file": {"h5py.File", "h5py.Group"}, "npint": {"numpy.int64"}, "npfloat": {"numpy.float64", "float"},
    "strarray": {"numpy.ndarray"}, "bytesarray": {"numpy.ndarray"}, "class": {"type"}, "lock": {"lock"}, "pool": {"pool"},
}
ALSO = {
    "bool": {"int"}, "pathlib.Path": {"pathlib.PurePath", "os.PathLike", "pathlib.PosixPath"}, "list": {"Iterable", "Sequence"}, "tuple": {"Iterable", "Sequence"},
    "dict": {"Iterable", "Mapping"}, "str": {"Iterable", "Sequence"}, "set": {"Iterable"}, "numpy.ndarray": {"Iterable"}, "pandas.DataFrame": {"Iterable"},
    "pandas.Series": {"Iterable"}, "int": {"Number", "Integral", "Real"}, "float": {"Number", "Real"},
    "numpy.int64": {"numpy.integer", "numpy.number", "numpy.generic", "Number", "Integral"}, "numpy.float64": {"numpy.floating", "numpy.number", "numpy.generic", "Number"},
}
