"What each check covers, and what it assumes."

CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, modules, explanation, bounds, *assumptions):
    CHECKS[prop] = {
        "modules": modules,
        "explanation": explanation,
        "bounds": bounds,
        "assumptions": list(assumptions),
    }


check(
    "C01",
    ["props.c01_identifiers"],
    "Identifier classes, and every statement of every dialect (create, drop, synchronise, insert, upsert, delete), are "
    "executed with a symbolic name in the position of a schema, table, column, type, constraint or member. The text is "
    "tokenised by reference lexical rules of the dialect; the solver decides that it has the token structure of the "
    "same statement for a plain name, and that each token reads back as the name.",
    "One or two symbolic names at a time, up to 3 characters (quick), 6 (thorough), any Unicode text but NUL and "
    "surrogates; the other names are constants longer than that.",
    "The reference lexer (props/lex.py, props/sql.py) states the lexical rules of the databases.",
)
check(
    "C02",
    ["props.c02_literals"],
    "quote(), escape_like(), and every statement in which a text is embedded (defaults, enumeration labels, comments, "
    "migrated labels, catalog queries), are executed with a symbolic text. A reference lexer of the dialect reads the "
    "literal back; the solver decides that it denotes exactly the text and that the rest of the statement is unaffected.",
    "Texts of up to 2 or 3 characters (quick), 4 to 6 (thorough), any Unicode text but NUL and surrogates.",
    "The reference lexer (props/lex.py) states the lexical rules of the databases: standard_conforming_strings is on in "
    "PostgreSQL and Redshift, NO_BACKSLASH_ESCAPES is off in MySQL, backslash escapes apply in Snowflake and Databricks.",
)
check(
    "C12",
    ["props.c12_compatible"],
    "compatible_type() is executed on lists of types with symbolic attributes (integer width, signedness and range, "
    "length or absence of a length). For a symbolic value, the solver decides that the value fits the result if it fits "
    "a member, that all permutations agree on whether there is a result, that families with a common type are reduced "
    "and others refused.",
    "Two and three members of integer, floating-point, character, binary and other types of each dialect; integer "
    "ranges and values unbounded, lengths up to 2^32.",
    "The range of an integer type is that of its width and signedness, intersected with the range annotation; a "
    "fixed-length type without a length holds one character.",
)
check(
    "C13",
    ["props.c13_types"],
    "A type with symbolic attributes is turned into its definition text; a reference of the dialect's type system says "
    "what column type the text creates (or that the database refuses it) and fills in the system tables. The dialect's "
    "explorer runs its own queries on these, evaluated by a reference SQL interpreter. The solver decides that the type "
    "discovered denotes the same column type, and that the column type holds what was asked for.",
    "PostgreSQL (and arrays), MySQL, Microsoft SQL and Oracle; integers within the limits of the dialect (length up to "
    "2^31 or so, precision, scale); one or two enumeration labels of up to 3 characters (quick), 5 (thorough).",
    "The reference type systems and system tables (props/refcatalog.py) and the query evaluator (props/minisql.py) "
    "state how the databases behave. Backslash in enumeration labels is left to C02. MySQL lengths count single-byte "
    "characters. Redshift, Snowflake, Databricks and Trino are left out.",
)
check(
    "C16",
    ["props.c16_discovery"],
    "A database with symbolic contents (names, nullability, identity, defaults, comments, order of key columns, unique "
    "and foreign constraints over one or two columns) fills in the system tables of the dialect, beside tables of the "
    "same name in another schema or of another owner. The explorer runs its own queries on these, evaluated by a "
    "reference SQL interpreter, which returns rows in each order that the query permits. The solver decides that the "
    "discovered table has exactly the columns, keys and constraints of the table in the database, and that looking up a "
    "table or a column by name, and listing tables, tell what is in the database.",
    "PostgreSQL, MySQL, Microsoft SQL, Oracle; Trino for columns. Tables of up to 4 columns, up to 2 constraints of up to "
    "2 columns each, keys of up to 3 columns; symbolic names of up to 2 characters; two tables per namespace; two "
    "enumerations of two labels; composite types of two members.",
    "The reference system tables (props/refcatalog.py) and the query evaluator (props/minisql.py) state how the "
    "databases behave. Check constraints are not discovered by design. In Oracle, names with a dollar sign are left out.",
)
check(
    "C17",
    ["props.c17_results"],
    "query_all() of each dialect runs against a stand-in for the driver that represents rows as the driver does, with "
    "symbolic values and a symbolic choice of the order of columns and of the signature. The solver decides that there "
    "is one item per row, in order, that each value is at its position or in the field of its name, and that results "
    "of another shape are refused.",
    "PostgreSQL, MySQL, Microsoft SQL, Oracle, Redshift, Trino; up to 3 columns; up to 3 rows (quick), 5 (thorough).",
    "The stand-ins (props/drivers.py) represent rows as the drivers do.",
)
check(
    "C18",
    ["props.c18_parameters"],
    "get_parameters(), ConnectionParameters.__str__ and open() of each dialect are executed with symbolic components "
    "(percent-encoding is executed symbolically, as is the URL parser of the standard library). The solver decides that "
    "each component is returned as encoded, that writing and reading parameters yields the same, that texts written and "
    "messages logged are the same for any two passwords, and that the driver gets the components.",
    "One component of up to 2 characters (quick), 3 or 4 (thorough) of any Unicode text but NUL and surrogates at a time; "
    "any port; host names in lower case, addresses from a list; any other components present or absent.",
    "ODBC connection strings are read by a reference parser. Oracle databases are words. Redshift uses no password.",
)
check(
    "C19",
    ["props.c19_tls"],
    "open() of each dialect is executed against a stand-in for the connect function of the driver, which classifies the "
    "attempt by its arguments (encrypted, certificate verified, host verified, may revert to no encryption), and whose "
    "outcome (success, with or without encryption, or one of several errors) is symbolic. It is decided for all modes "
    "and all outcomes of each attempt that the mode is respected, in the documented order, and that failure is reported.",
    "All modes, all outcomes, any number of attempts (three are refused); order of attempts for PostgreSQL and MySQL, "
    "which implement it.",
    "The meaning of driver arguments is that in the source of asyncpg, aiomysql, and documentation of the other drivers.",
)
check(
    "C20",
    ["props.c20_exchange"],
    "Readers (synchronous and asynchronous) and the writer are executed on files whose header order, cells and objects "
    "are symbolic. The solver decides that there is one record per line, in order, that each value is at the position "
    "of its column, that columns are those in the header, and that what is written is read back.",
    "Up to 3 columns and 2 records (quick), 3 records (thorough); integers of up to two digits, texts of up to 1 character "
    "(quick), 2 or 3 (thorough), in the ASCII range; one symbolic column name; 25 types of fields with representative "
    "values next to symbolic ones; mappings with any of three fields in any order.",
    "The native parser of the package tsv2py is replaced with a model (symex/tabular.py) for integers and text; values of other types are concrete, and parsed by it.",
)
check(
    "C08",
    ["props.c08_statements"],
    "Statements generated for a table of symbolic shape (position of the key, identity, unique column) and a symbolic "
    "selection and order of columns are run by a reference interpreter (props/dml.py) on a table of two rows with "
    "symbolic values, with a record of symbolic values or NULL. The solver decides that the resulting rows are exactly "
    "the old ones with the supplied values in their columns. In another harness, the name of a column is symbolic.",
    "A table of four columns and two rows, one record; seven selections of columns (quick), all selections and orders "
    "(thorough); a column name of up to 2 characters (quick), 4 (thorough).",
    "The interpreter states the meaning of INSERT, MERGE, ON CONFLICT, ON DUPLICATE KEY UPDATE and DELETE, and the "
    "formatting done by the driver of MySQL. A record that would break a unique constraint is left out. Whether an upsert "
    "updates a unique column, or uses it to look up the row, is left open. Trino has no such statements.",
)
check(
    "C09",
    ["props.c09_records"],
    "insert_rows, upsert_rows, delete_rows, execute_all, insert_data, upsert_data and delete_data of each dialect run "
    "against a stand-in for the driver, which records statements, parameters, types and data streams. Source, number of "
    "records, batch size, order of fields, which fields are omitted and how, identity and values are symbolic. What "
    "reaches the driver is run by a reference interpreter (props/dml.py, props/loading.py); the solver decides that there "
    "is one row per record, in order, with each value in its column, and that batches are neither empty nor too large.",
    "A table of three columns; up to 7 records in up to 7 batches; records of any values for one record, of any numbers "
    "for the others; texts of up to 1 character (up to 2 or 4 in the data streams of Redshift).",
    "The stand-ins (props/loading.py) interpret statements and the data streams of Redshift as the database does. "
    "Snowflake and Databricks have no connections, Trino refuses to load data.",
)
check(
    "C10",
    ["props.c10_labels"],
    "insert_rows, upsert_rows, insert_data and upsert_data run against a stand-in for the driver on tables whose columns "
    "refer to lookup tables. Labels in the data and in the lookup table, keys, NULL, order and selection of fields, "
    "field types and batches are symbolic. Statements and queries are run by reference interpreters (props/dml.py, "
    "props/minisql.py) on the lookup tables; the solver decides that each label becomes the key of that very label, that "
    "existing labels keep their key, and that labels registered are exactly those in the data.",
    "Labels of 1 character of any text, or members of enumerations; 2 records and up to 1 existing label (quick), 3 records "
    "and up to 2 existing labels (thorough), in batches of 1 to 3; lists and sets of up to 2 labels.",
    "Labels are compared exactly (collations of the database are not modelled).",
)
check(
    "C11",
    ["props.c11_values"],
    "Objects of classes with a field of each kind, plain or wrapped, are converted to records, and loaded with insert_data, "
    "upsert_data, insert_rows, upsert_rows, delete_data and delete_rows against a stand-in for the driver. Numbers, text, "
    "the bytes of identifiers and network addresses, and the parts of a time of day are symbolic; other kinds of values are "
    "a choice of several. The solver decides that what reaches the driver is the representation of the very same value, in "
    "each way of loading, and that types announced to the driver admit the value.",
    "Classes of three or four fields, 26 kinds of fields, 7 ways to wrap a type, one object; texts of up to 2 characters.",
    "The representation that each driver expects is stated in the harness: binary strings for identifiers and addresses "
    "except for PostgreSQL, time elapsed since midnight in Oracle, text labels for enumeration types, JSON text for documents "
    "and lists except for arrays of PostgreSQL. Composite types of PostgreSQL, and bytes except for Oracle are not supported.",
)
check(
    "C22",
    ["props.c22_failures"],
    "create_objects, drop_objects, synchronize, execute, execute_all, queries and data loading run against a stand-in for the "
    "driver, in which a symbolic choice of the calls fails, once or twice before success. The solver decides that the error is "
    "reported with the statement that failed, that the schema believed to exist is the one from before, that the same script "
    "is executed when retried, that success leaves the requested schema, and that blank statements are refused.",
    "Four sets of classes, up to two failures at the first four calls; statements of up to 2 characters; scripts of 3 statements.",
    "The stand-in for SQL Server runs a batch up to the first statement with a row count, and the rest only when further "
    "results are requested. In synchronization, discovery itself is replaced (it is checked in C16).",
)
check(
    "C23",
    ["props.c23_scripts"],
    "Scripts of two statements with a symbolic text in a literal, quoted identifier, comment, dollar-quoted literal or "
    "procedural block are executed with drivers that accept a single statement at a time; separators, order and ends are "
    "symbolic choices. The solver decides that what is executed are exactly the statements. Scripts generated by the library "
    "are compared with the statements that the reference lexer finds.",
    "Texts of up to 2 characters (quick; 1 in blocks that are long), 3 (thorough), any Unicode text but NUL and surrogates.",
    "Procedural blocks are DECLARE or BEGIN blocks, triggers, functions, packages, and bodies of packages and types; alternative quoting (q-quotes) is left out.",
)
check(
    "C03",
    ["props.c03_schema"],
    "A model with symbolic texts (defaults, descriptions, labels), symbolic flags and type limits, and symbolic choices of "
    "structure (which tables refer to which, constraints, composite types, enumerations, schemas) is created by the real "
    "generator; the script is executed statement by statement by a reference database, which refuses a statement that the "
    "database engine would refuse. The solver decides that every statement is accepted, the objects equal those of the model, "
    "and the drop script leaves nothing behind.",
    "Up to 3 schemas, 4 tables, 3 composite types and 6 columns; texts of up to 1 character (quick), 2 (thorough), for each of "
    "the 8 dialects.",
    "The reference database models catalogs (schemas, types, tables, columns, constraints and what depends on what), not "
    "storage; its rules are taken from the documentation of the engines.",
)
check(
    "C04",
    ["props.c04_sync"],
    "Two models with symbolic texts, limits, nullability and symbolic choices of structure are given to the real mutator; the source schema is created in a reference database, the synchronization script is executed there statement by statement, and the solver decides that every statement is accepted and that the objects then equal those of the target model. A refusal (an error) counts only where the engine cannot make the change. A second synchronization must need no statement.",
    "Pairs of models that differ in the properties of a column (type within a family, nullability, default, identity, description), added and removed columns with their constraints, two constraints, up to 3 tables that refer to one another, up to 3 schemas, 2 composite types and an enumeration; texts of up to 1 character (quick), 2 (thorough).",
    "Types change only to types to which the engine can convert (integer widths, text limits, decimal precision); tables hold no rows (rows are part of C07).",
    "The rules for Snowflake, Databricks and Trino are those of the SQL standard as far as the generic mutator uses them.",
)
check(
    "C05",
    ["props.c05_differences"],
    "Two models with symbolic attributes (type, limit, nullability, identity, default, description, names, labels, members, constraints) are given to the real mutator; the solver decides that there is no script if and only if the attributes are equal, and that a copy of a model needs no statement.",
    "One column, constraint, key, enumeration or composite type at a time with all attributes differing in any combination; any types of the four dialects with a catalog; texts of up to 1 character (quick), 2 (thorough).",
    "A difference of types counts if the SQL names of the types differ. Rows of lookup tables are data, not schema; the order of labels is not compared.",
)
check(
    "C06",
    ["props.c06_permissions"],
    "The four permissions are symbolic Booleans in the real options object; models with objects of each kind present or absent are synchronised, and the statements are read by a reference lexer. The solver decides for each permission and difference that no statement drops or alters an object that has to be kept, and that objects are dropped if permitted; and, for symbolic labels, that removing a label of an enumeration is refused.",
    "Two schemas with a table, an enumeration and a composite type each, in any combination of removals and permissions; up to 2 labels of up to 1 character (quick), 2 (thorough).",
    "Combinations of permissions that contradict one another (an enumeration may be dropped but not the table that uses it) need not give an executable script.",
)
check(
    "C07",
    ["props.c07_migration"],
    "Tables with rows of symbolic labels or texts, NULLs, and lookup tables with or without rows, are migrated by executing the real script in a reference database that keeps rows; the solver decides that each row refers to the row of the lookup table that has its original label, NULL stays NULL, and labels are neither duplicated nor made up.",
    "Up to 2 columns and 2 rows (quick), 3 (thorough); 2 labels; texts of up to 1 character (quick), 2 (thorough).",
    "Comparison of labels is exact, as in a binary collation.",
)
check(
    "C26",
    ["props.c26_merging"],
    "Two models with symbolic schema and object names and symbolic definitions are merged by the real Catalog.merge; the solver decides that each object of either model is in the result exactly once, that different definitions of the same object (and no others) are refused, and that later changes of either model do not affect the other. Models whose schemas (named or default) refer to one another in any way without a cycle are ordered by the real Catalog.sort.",
    "Up to 2 schemas with an object each, or a schema with 2 objects, on either side; all properties of an object in groups of 2 to 4; texts of up to 1 character (quick), 2 (thorough); 3 schemas in any order (one of which may be the default schema) with up to one reference each (quick), 4 (thorough).",
    "Rows of lookup tables are data, not a definition. Schemas that refer to one another in a cycle cannot be ordered, and are left out.",
)
check(
    "C14",
    ["props.c14_columns"],
    "A class whose field has a type with symbolic limits (range, length, precision, fraction) is converted by the real code for each dialect. The type of the column is read by a reference of what the types of the engine hold, and the solver decides that every (symbolic) value in the range of the field is in the range of the column and is admitted by its constraints; for symbolic labels, that enumerations in each mode hold every member; for all combinations of annotations, that keys, unique and identity columns and NULL are as in the class; and for symbolic default values, that the default expression denotes the value.",
    "Classes with one varied field; any integer range within 64 bits, up to 38 digits, texts of any length that the engine has, labels and defaults of up to 2 characters (quick), 3 (thorough).",
    "Lengths are counted in the unit of the engine; a label has at most 64 characters (as documented); non-finite numbers are left out, as are types that cannot be loaded (timedelta) or that the dialect refuses with an error.",
)
check(
    "C15",
    ["props.c15_models"],
    "Sets of classes that refer to one another (references, self-references, unions, enumerations, extensible enumerations, composite types, lists and sets of each) are converted by the real code in each conversion mode of each dialect, the classes being in any of three modules. The model has to define each type, table and column that it refers to, to have exactly the objects that the classes need, and to be executable in a reference database. With symbolic names of classes and fields (equal or different across modules), the solver decides that names of tables, columns and constraints never collide in the scope in which the dialect requires them to be unique.",
    "Up to four classes in three modules, with one varied field (quick; some pairs of fields) or two (thorough); names of up to one letter (quick), two (thorough). The kinds of fields, modules and modes are finite choices that are explored exhaustively.",
    "Names have no underscore: constraint names are joined by it and are ambiguous if names have it, too. Modules do not refer to one another in a circle, which is refused. Lists in mode RELATION for which there is no table are refused, as documented.",
)
check(
    "C21",
    ["props.c21_generator"],
    "The source of random numbers is replaced with one whose every outcome is a symbolic value of the range that the code asks for. The real generator produces objects of a class whose field has a type with symbolic limits (range, length, digits); the solver decides that the value of the field is of the right type and within its limits for every outcome, and that key and unique fields never repeat.",
    "Integer limits within 64 bits and lengths up to 2^31 (symbolic); precision of 1, 2, 3, 5, 9, 18 and 38 digits (quick), 1 to 38 (thorough) with symbolic digits; 3 objects with a key or a unique field (quick), 4 (thorough); at most 40 random draws.",
    "Random UUIDs are distinct. Random bits of network addresses, which native code consumes, are among five patterns. Further attempts at a unique value beyond the number of draws are not explored.",
)
check(
    "C24",
    ["props.c24_classes"],
    "The real conversion derives a class from a table whose column types have symbolic properties (width, sign, precision, scale, limit) and whose columns have symbolic nullability, defaults and descriptions. The harness takes the annotations of the fields apart with its own reader, and the solver decides that they state the same properties for every value.",
    "13 kinds of column types, nested in arrays up to depth 2 (quick) or 3 (thorough), with properties in the range that databases permit; 3 columns with 5 choices of a key; 9 arrangements of references, including to several tables and across schemas; texts of up to 3 characters.",
    "Names of columns, tables and schemas are fixed (among them Python keywords). User-defined, binary and interval column types are outside.",
)
check(
    "C25",
    ["props.c25_source"],
    "The real code generator runs on classes whose documentation, constants, default values and enumeration values are symbolic texts (the docstring parser of strong_typing and textwrap are executed symbolically from their source, too). A reader of Python string literals that belongs to the harness recovers the content of each literal in the generated text; the rest of the text is compiled and executed, and the class it defines is compared with the original, where the solver decides that texts are the same for every content.",
    "Texts of up to 2 (quick) or 4 (thorough) arbitrary characters among printable characters (ASCII, and some of Latin-1), line breaks and tabulators; documentation texts of 5 layouts with up to 4 symbolic words of up to 3 (4) characters; 44 kinds of field types with 1 to 7 default values each, with or without metadata.",
    "Control characters other than line breaks and tabulators are outside, as are settings of data-classes (frozen, order, slots), aliases of enumeration members, methods and base classes. Names that the code of a single class relies on are bound as they are in the code of a module.",
)
check(
    "C27",
    ["props.c27_live"],
    "The real Explorer.synchronize runs against a reference database: the statements are executed by a reference of the engine, and catalog queries are interpreted over the system tables that the engine has for its objects (with types and default values spelled as the engine spells them). Classes, their changes, texts, lengths, digits and numbers are symbolic. The solver decides that every statement is accepted, that the database has exactly the objects that the classes describe, that other tables are left alone, and that synchronizing again (from the same client or from another) executes nothing.",
    "Two models in a row; up to 2 modules with up to 2 classes each next to tables of others; one field with each type and any of several default values, or with a symbolic text (up to 2 characters), length, number or precision; up to 3 fields added or removed (quick), 4 (thorough); references, keys, unique fields, enumerations in each mode, lists, composite types; modules in schemas of their own or in the default schema, with any name of the current schema; schemas with up to two tables dropped, twice; catalog rows in order or in reverse order.",
    "The reference database and the reference catalog are models of PostgreSQL, MySQL, Microsoft SQL Server and Oracle, written from their documentation. Dialects that discover from a plain information schema (Redshift uses the PostgreSQL explorer; Trino, Snowflake, Databricks have no keys or default values in it) are left out. A backslash in a default value of MySQL (see C02) or PostgreSQL is left out. Rows are not modelled (see C04).",
)
check(
    "C28",
    ["props.c28_registry"],
    "A freshly loaded pysqlsync.factory is given a history of registering, unregistering and looking up dialects with symbolic names; the solver decides that the outcome of each step is that of a table with unique names, and that bundled dialects stay available. The module is also loaded with each subset of the database drivers missing (a symbolic truth value per driver); the solver decides that a dialect refuses to be used, with an error that names the module and the extra to install, if and only if a driver of its own is missing, and otherwise creates its own generator and connection.",
    "Histories of 3 and 4 steps (quick), 5 (thorough) with names of up to 2 lowercase letters; all combinations of 8 missing drivers.",
    "A missing driver is a top-level module whose import raises ModuleNotFoundError. Unregistering a name that is not registered is left out.",
)
check(
    "C29",
    ["props.c29_reshaping"],
    "Classes of symbolic shape (type, default value or factory, and documentation of each field; which field becomes the key, or the text of its name; which member is a composite, and whether it is optional) are transformed by the real make_entity, flatten_dataclass and make_dataclass; the solver decides that the fields of the result (name, order, type, default value, default factory) and its documentation are those of the original.",
    "Up to 3 fields (quick), 4 (thorough); a composite of up to 2 members (quick), 3 (thorough); zero, a number, an empty and other text and None as default values; a key name of up to 2 characters.",
    "A key with a default value is left out unless all fields have one, as are default factories in composite types (there is no place for a default factory in a list of fields). Composite types are flattened one level deep.",
)
check(
    "C30",
    ["props.c30_sessions"],
    "The real connections are entered and left with a stand-in for each driver that has transactions as the driver has them (pyodbc, oracledb and redshift_connector start with autocommit off, aiomysql unless asked), any call to which may fail. Operations, statement texts, values and failures (to connect, of a statement, of the caller) are symbolic. The solver decides that nothing is left uncommitted once an operation returns, that the connection is closed exactly once, and that results and errors reach the caller.",
    "1 operation (quick), 2 in a row (thorough) out of 6 kinds (statement, script, records, insert, upsert, query); a failure of any of the first 3 calls; texts of up to 1 character (2 for functions run in a thread), numbers of up to two digits.",
    "Drivers are replaced with stand-ins (props/scripting.py, props/c30_sessions.py) written from their documentation. Interrupting a thread is left out.",
)
