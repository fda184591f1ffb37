"""Function catalogue of the dialect: what the documentation says about each supported function.

name -> (is_aggregate, allowed argument counts).  Independent of treeno's registry.
"""
INF = 99


def _r(a, b=None):
    return (a, a if b is None else b)


SCALAR = {
    "AT_TIMEZONE": _r(2), "CHR": _r(1), "COALESCE": _r(2, INF), "CODEPOINT": _r(1), "CONCAT": _r(2, INF), "DATE": _r(1),
    "DATE_ADD": _r(3), "DATE_DIFF": _r(3), "DATE_TRUNC": _r(2), "FROM_ISO8601_DATE": _r(1),
    "FROM_ISO8601_TIMESTAMP": _r(1), "FROM_ISO8601_TIMESTAMP_NANOS": _r(1), "FROM_UNIXTIME": _r(1, 3),
    "FROM_UNIXTIME_NANOS": _r(1), "FROM_UTF8": _r(1, 2), "HAMMING_DISTANCE": _r(2), "HUMAN_READABLE_SECONDS": _r(1),
    "IF": _r(2, 3), "LAST_DAY_OF_MONTH": _r(1), "LENGTH": _r(1), "LEVENSHTEIN_DISTANCE": _r(2), "LOWER": _r(1),
    "LPAD": _r(3), "LTRIM": _r(1), "LUHN_CHECK": _r(1), "NOW": _r(0), "NULLIF": _r(2), "PARSE_DURATION": _r(1),
    "POWER": _r(2), "REPLACE": _r(2, 3), "REVERSE": _r(1), "RPAD": _r(3), "RTRIM": _r(1), "SOUNDEX": _r(1),
    "TO_ISO8601": _r(1), "TO_MILLISECONDS": _r(1), "TO_UNIXTIME": _r(1), "TO_UTF8": _r(1), "TRY": _r(1),
    "WITH_TIMEZONE": _r(2),
}
AGG = {
    "APPROX_DISTINCT": _r(1, 2), "APPROX_MOST_FREQUENT": _r(3), "APPROX_PERCENTILE": _r(2, 3), "APPROX_SET": _r(1),
    "ARBITRARY": _r(1), "ARRAY_AGG": _r(1), "AVG": _r(1), "BITWISE_AND_AGG": _r(1), "BITWISE_OR_AGG": _r(1),
    "BOOL_AND": _r(1), "BOOL_OR": _r(1), "CHECKSUM": _r(1), "CORR": _r(2), "COUNT": _r(1), "COUNT_IF": _r(1),
    "COVAR_POP": _r(2), "COVAR_SAMP": _r(2), "EVERY": _r(1), "GEOMETRIC_MEAN": _r(1), "HISTOGRAM": _r(1),
    "KURTOSIS": _r(2), "MAP_AGG": _r(2), "MAP_UNION": _r(1), "MAX": _r(1, 2), "MAX_BY": _r(2, 3), "MERGE": _r(1),
    "MIN": _r(1, 2), "MIN_BY": _r(2, 3), "MULTIMAP_AGG": _r(2), "NUMERIC_HISTOGRAM": _r(2, 3), "QDIGEST_AGG": _r(1, 3),
    "REGR_INTERCEPT": _r(2), "REGR_SLOPE": _r(2), "SKEWNESS": _r(1), "STDDEV": _r(1), "STDDEV_POP": _r(1),
    "STDDEV_SAMP": _r(1), "SUM": _r(1), "TDIGEST_AGG": _r(1, 2), "VARIANCE": _r(1), "VAR_POP": _r(1), "VAR_SAMP": _r(1),
}
ARITY = {**SCALAR, **AGG}
SPECIAL_TIME = {"CURRENT_TIME": True, "CURRENT_TIMESTAMP": True, "LOCALTIME": True, "LOCALTIMESTAMP": True,
                "CURRENT_DATE": False}
SESSION = {"CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"}
NORMAL_FORMS = {"NFD", "NFC", "NFKD", "NFKC"}
PLAIN_TYPES = ["BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE",
               "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST"]
# type names usable as NAME 'text' without parameters
LITERAL_TYPES = PLAIN_TYPES + ["DECIMAL", "VARCHAR", "CHAR", "TIME", "TIMESTAMP"]
# documented SQL name of every function class of the Python API
_CLASSES = {
    "aggregate": """APPROX_DISTINCT=ApproxDistinct APPROX_MOST_FREQUENT=ApproxMostFrequent APPROX_PERCENTILE=ApproxPercentile
APPROX_SET=ApproxSet ARBITRARY=Arbitrary ARRAY_AGG=ArrayAgg AVG=Avg BITWISE_AND_AGG=BitwiseAndAgg BITWISE_OR_AGG=BitwiseOrAgg
BOOL_AND=BoolAnd BOOL_OR=BoolOr CHECKSUM=Checksum CORR=Corr COUNT=Count COUNT_IF=CountIf COVAR_POP=CovarPop
COVAR_SAMP=CovarSamp EVERY=Every GEOMETRIC_MEAN=GeometricMean HISTOGRAM=Histogram KURTOSIS=Kurtosis LISTAGG=ListAgg
MAP_AGG=MapAgg MAP_UNION=MapUnion MAX=Max MAX_BY=MaxBy MERGE=Merge MIN=Min MIN_BY=MinBy MULTIMAP_AGG=MultiMapAgg
NUMERIC_HISTOGRAM=NumericHistogram QDIGEST_AGG=QDigestAgg REGR_INTERCEPT=RegrIntercept REGR_SLOPE=RegrSlope SKEWNESS=Skewness
STDDEV=StdDev STDDEV_POP=StdDevPop STDDEV_SAMP=StdDevSamp SUM=Sum TDIGEST_AGG=TDigestAgg VARIANCE=Variance VAR_POP=VarPop
VAR_SAMP=VarSamp""",
    "datetime": """AT_TIMEZONE=AtTimezone CURRENT_DATE=CurrentDate CURRENT_TIME=CurrentTime CURRENT_TIMESTAMP=CurrentTimestamp DATE=Date
DATE_ADD=DateAdd DATE_DIFF=DateDiff DATE_TRUNC=DateTrunc FROM_ISO8601_DATE=FromISO8601Date
FROM_ISO8601_TIMESTAMP=FromISO8601Timestamp FROM_ISO8601_TIMESTAMP_NANOS=FromISO8601TimestampNanos FROM_UNIXTIME=FromUnixtime
FROM_UNIXTIME_NANOS=FromUnixtimeNanos HUMAN_READABLE_SECONDS=HumanReadableSeconds LAST_DAY_OF_MONTH=LastDayOfMonth
LOCALTIME=LocalTime LOCALTIMESTAMP=LocalTimestamp NOW=Now PARSE_DURATION=ParseDuration TO_ISO8601=ToISO8601
TO_MILLISECONDS=ToMilliseconds TO_UNIXTIME=ToUnixtime WITH_TIMEZONE=WithTimezone""",
    "string": """CHR=Chr CODEPOINT=CodePoint FROM_UTF8=FromUTF8 HAMMING_DISTANCE=HammingDistance LENGTH=Length
LEVENSHTEIN_DISTANCE=LevenshteinDistance LOWER=Lower LPAD=LPad LTRIM=LTrim LUHN_CHECK=LuhnCheck NORMALIZE=Normalize
REPLACE=Replace REVERSE=Reverse RPAD=RPad RTRIM=RTrim SOUNDEX=Soundex TO_UTF8=ToUTF8""",
    "conditional": """COALESCE=Coalesce IF=If NULLIF=NullIf TRY=Try""",
    "common": """CONCAT=Concatenate""",
    "session": """CURRENT_CATALOG=CurrentCatalog CURRENT_PATH=CurrentPath CURRENT_SCHEMA=CurrentSchema CURRENT_USER=CurrentUser""",
    "math": """POWER=Power""",
}
CLASS = {e.split("=")[0]: (m, e.split("=")[1]) for m, t in _CLASSES.items() for e in t.split()}
SQL_NAME = {c: n for n, (m, c) in CLASS.items()}
