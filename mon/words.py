"""Keyword tables of the dialect (transcribed from the published Trino grammar)."""
NONRESERVED = set("""ABSENT ADD ADMIN AFTER ALL ANALYZE ANY ARRAY ASC AT AUTHORIZATION BERNOULLI BOTH CALL CASCADE CATALOGS
COLUMN COLUMNS COMMENT COMMIT COMMITTED CONDITIONAL COPARTITION COUNT CURRENT DATA DATE DAY DEFAULT DEFINE DEFINER DESC
DESCRIPTOR DISTRIBUTED DOUBLE EMPTY ENCODING ERROR EXCLUDING EXPLAIN FETCH FILTER FINAL FIRST FOLLOWING FORMAT FUNCTIONS
GRANT DENY GRANTED GRANTS GRAPHVIZ GROUPS HOUR IF IGNORE INCLUDING INITIAL INPUT INTERVAL INVOKER IO ISOLATION JSON KEEP
KEY KEYS LAST LATERAL LEADING LEVEL LIMIT LOCAL LOGICAL MAP MATCH MATCHED MATCHES MATCH_RECOGNIZE MATERIALIZED MEASURES
MERGE MINUTE MONTH NEXT NFC NFD NFKC NFKD NO NONE NULLIF NULLS OBJECT OF OFFSET OMIT ONE ONLY OPTION ORDINALITY OUTPUT
OVER OVERFLOW PARTITION PARTITIONS PASSING PAST PATH PATTERN PER PERMUTE POSITION PRECEDING PRECISION PRIVILEGES
PROPERTIES PRUNE QUOTES RANGE READ REFRESH RENAME REPEATABLE REPLACE RESET RESPECT RESTRICT RETURNING REVOKE ROLE ROLES
ROLLBACK ROW ROWS RUNNING SCALAR SCHEMA SCHEMAS SECOND SECURITY SEEK SERIALIZABLE SESSION SET SETS SHOW SOME START STATS
SUBSET SUBSTRING SYSTEM TABLES TABLESAMPLE TEXT STRING TIES TIME TIMESTAMP TO TRAILING TRANSACTION TRUNCATE TRY_CAST
TYPE UNBOUNDED UNCOMMITTED UNCONDITIONAL UNIQUE UNKNOWN UNMATCHED UPDATE USE USER UTF16 UTF32 UTF8 VALIDATE VALUE VERBOSE
VERSION VIEW WINDOW WITHIN WITHOUT WORK WRAPPER WRITE YEAR ZONE""".split())
RESERVED = set("""ALTER AND AS BETWEEN BY CASE CAST CONSTRAINT CREATE CROSS CUBE CURRENT_CATALOG CURRENT_DATE
CURRENT_PATH CURRENT_ROLE CURRENT_SCHEMA CURRENT_TIME CURRENT_TIMESTAMP CURRENT_USER DEALLOCATE DELETE DESCRIBE DISTINCT
DROP ELSE END ESCAPE EXCEPT EXECUTE EXISTS EXTRACT FALSE FOR FROM FULL GROUP GROUPING HAVING IN INNER INSERT INTERSECT
INTO IS JOIN JSON_ARRAY JSON_EXISTS JSON_OBJECT JSON_QUERY JSON_VALUE LEFT LIKE LISTAGG LOCALTIME LOCALTIMESTAMP NATURAL
NORMALIZE NOT NULL ON OR ORDER OUTER PREPARE RECURSIVE RIGHT ROLLUP SELECT SKIP TABLE THEN TRIM TRUE UESCAPE UNION UNNEST
USING VALUES WHEN WHERE WITH""".split())
UPPER_ONLY = {"NFC", "NFD", "NFKC", "NFKD", "UTF8", "UTF16", "UTF32", "STRING", "SKIP"}
KEYWORDS = NONRESERVED | RESERVED


def keyword(text: str):
    """The keyword a word token denotes (keywords are recognised all upper or all lower case), or None."""
    if text in KEYWORDS:
        return text
    up = text.upper()
    if text == text.lower() and up in KEYWORDS and up not in UPPER_ONLY:
        return up
    return None
