"Source of /verif/properties.jsonl: run to regenerate."
import json
import os

F = "pysqlsync/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [F + f for f in files],
                "state": [{"name": n, "meaning": m, "where": F + w} for n, m, w in state],
                "mechanism": [{"name": n, "where": F + w} for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Names are embedded in SQL as one delimited identifier that reads back exactly",
    "Whatever characters a schema, table, column, constraint or type name contains, every SQL statement generated for any dialect refers to it "
    "by a single delimited identifier that reads back as exactly that name. No name can end its delimiter early, and statements that mention several "
    "names keep them apart. Objects with different qualified names are never referred to by the same text in dialects with schemas.",
    ["inputs", "configurations"],
    "for all names over all Unicode characters (bounded length) in all naming positions of all generated statements, for each dialect",
    "Tests use a handful of alphanumeric names; a name with a quote character in one particular statement of one dialect is never generated.",
    ["model/id_types.py", "formation/object_types.py", "formation/mutation.py", "base.py", "dialect/mssql/object_types.py", "dialect/oracle/object_types.py"],
    [("identifier quoting", "model/id_types.py"), ("statement generation embeds names through their quoted form", "formation/object_types.py")],
    observe=["text of DDL and DML statements"],
)
prop(
    "C02",
    "String constants in SQL denote exactly the text given, in every dialect",
    "A text value embedded in generated SQL (default value, enumeration value, column or table comment, catalog query filter) is a single well-formed literal "
    "of the dialect that denotes exactly that text. No text can terminate its literal early, and no character is added, lost or altered. "
    "A pattern built from a name for a LIKE expression matches that name only.",
    ["inputs", "configurations"],
    "for all strings over all Unicode characters except NUL (bounded length) in each literal position of each dialect",
    "Tests embed a few fixed strings; the escape rules of the dialects differ in exactly the characters that tests do not contain.",
    ["model/data_types.py", "dialect/postgresql/object_types.py", "dialect/mysql/object_types.py", "dialect/snowflake/object_types.py", "dialect/delta/object_types.py", "dialect/mssql/object_types.py"],
    [("quote, constant, escape_like", "model/data_types.py"), ("sql_quoted_string", "dialect/postgresql/object_types.py")],
    observe=["text of DDL and catalog queries"],
)
prop(
    "C03",
    "The create script builds exactly the described schema; the drop script undoes it",
    "Running the generated create script statement by statement on an empty database never references an object that does not exist yet, and leaves a database whose "
    "schemas, enumerations, composite types, tables, columns (with type, nullability, default and identity), keys and constraints are exactly those of the model. "
    "Running the drop script afterwards removes objects only once nothing depends on them, and leaves the database empty.",
    ["inputs", "configurations"],
    "for all models of bounded size: arbitrary names, nullability, defaults, identity, type widths and limits, foreign, unique and check constraints, cross-schema references",
    "Tests compare the script of a few fixed models with stored text and never execute it offline.",
    ["formation/object_types.py", "formation/mutation.py", "dialect/mysql/object_types.py", "dialect/mssql/object_types.py", "dialect/oracle/object_types.py", "dialect/postgresql/object_types.py"],
    [("create_stmt / drop_stmt / add_constraints_stmt", "formation/object_types.py"), ("topological sort of namespaces", "formation/object_types.py")],
    observe=["the statements of a create or drop script, executed by a reference catalog"],
)
prop(
    "C04",
    "A synchronization script turns the source schema into exactly the target schema",
    "For any existing schema and any desired schema, the generated synchronization script is executable statement by statement against the existing schema and results in exactly the desired schema, "
    "including column types (within what the database can convert), nullability, defaults, identity, comments where the dialect synchronises them, keys and constraints. When a change cannot be expressed, generation fails with an error instead of "
    "emitting a script that yields something else.",
    ["inputs", "histories", "configurations"],
    "for all pairs of models of bounded size that differ in any combination of added, removed and changed namespaces, tables, columns, column properties, constraints, enumerations and composite types",
    "The product of possible differences is unbounded; tests exercise about a dozen hand-written pairs, most of them only with a live database.",
    ["formation/mutation.py", "formation/object_types.py", "dialect/postgresql/mutation.py", "dialect/mysql/mutation.py", "dialect/mssql/mutation.py", "dialect/oracle/mutation.py"],
    [("Mutator.mutate_catalog_stmt and overrides", "formation/mutation.py")],
    observe=["the synchronization script, executed by a reference catalog"],
)
prop(
    "C05",
    "No difference yields no statement, and every difference yields one",
    "Synchronizing a schema with an equal schema generates no statement at all. Any difference between the two schemas that the dialect can store leads to at least one statement or to an error; "
    "it is never silently ignored. As a consequence, a second synchronization right after a successful one is always a no-op.",
    ["inputs", "histories", "configurations"],
    "for all models of bounded size, and all single and double differences between two models, for each dialect",
    "Tests check a few fixed pairs; an attribute that a comparison overlooks shows only for a pair that differs in that attribute alone.",
    ["formation/mutation.py", "formation/object_dict.py", "dialect/postgresql/mutation.py", "dialect/mysql/mutation.py", "dialect/mssql/mutation.py", "dialect/oracle/mutation.py"],
    [("difference / intersection of object dictionaries", "formation/object_dict.py"), ("mutate_*_stmt", "formation/mutation.py")],
    observe=["the synchronization script"],
)
prop(
    "C06",
    "Destructive changes happen only when the synchronization options permit them",
    "Unless dropping tables (schemas, enumerations, composite types) is permitted by the synchronization options, no generated script drops one, nor removes the constraints or columns of objects that it keeps only because dropping is not permitted. "
    "The options given by the user reach the component that generates the script in every dialect. "
    "Values of an enumeration are never removed silently: the attempt fails.",
    ["inputs", "configurations"],
    "for all values of the four permissions and all pairs of models of bounded size, for each dialect",
    "The existing tests never set the permissions to anything but the default in a generated script comparison.",
    ["formation/mutation.py", "base.py", "dialect/postgresql/generator.py", "dialect/mysql/generator.py", "dialect/mssql/generator.py", "dialect/oracle/generator.py", "dialect/trino/generator.py", "dialect/redshift/generator.py", "dialect/snowflake/generator.py", "dialect/delta/generator.py"],
    [("MutatorOptions", "formation/mutation.py"), ("GeneratorOptions.synchronization", "base.py")],
    observe=["the synchronization script"],
)
prop(
    "C07",
    "Replacing an enumeration by a lookup table keeps every stored value",
    "When a column changes from an enumeration (or its text representation) to a reference to a lookup table, the generated script first keeps the old values, then registers every label in use in the lookup table, then translates each row to the key of its label, and only then removes the old column. "
    "No row loses its value, NULL stays NULL, and no label is altered or duplicated in the lookup table. Where a dialect has no such migration, the change is refused.",
    ["inputs", "histories"],
    "for all enumeration labels, table contents, lookup table contents and column names of bounded size",
    "The migration needs a live database in the existing tests, and runs there on two fixed tables.",
    ["formation/mutation.py", "dialect/postgresql/mutation.py", "dialect/mysql/mutation.py"],
    [("migrate_enum_stmt, migrate_column_stmt, soft_drop_stmt, hard_drop_stmt", "formation/mutation.py")],
    observe=["the synchronization script, executed by a reference catalog with rows"],
)
prop(
    "C08",
    "Data statements put each supplied value into its own column and touch no other",
    "The insert, insert-or-ignore, insert-or-update and delete statements of every dialect bind the n-th value of a record to the n-th requested column, skip database-generated columns only where documented, and locate existing rows by their key. "
    "Updating existing rows changes exactly the supplied non-key columns: columns that were not supplied keep their stored value. "
    "Deleting removes exactly the rows with the given keys.",
    ["inputs", "configurations"],
    "for all table shapes of bounded size (identity, primary, unique and ordinary columns, nullability), all selections and orders of columns, all column names, for each dialect",
    "Tests compare the statement of two or three fixed tables; partial and reordered column selections are not generated offline.",
    ["base.py", "dialect/postgresql/generator.py", "dialect/mysql/generator.py", "dialect/mssql/generator.py", "dialect/oracle/generator.py", "dialect/redshift/generator.py", "dialect/trino/generator.py"],
    [("get_table_insert_stmt, get_table_merge_stmt, get_table_upsert_stmt, get_table_delete_stmt", "base.py")],
    observe=["statement text, executed by a reference table"],
)
prop(
    "C09",
    "Every record reaches the database once, in order, with its fields aligned",
    "However records are supplied (synchronously, asynchronously, in any number relative to the batch size) and whichever fields are omitted or reordered, each source record leads to exactly one database record, in source order, "
    "whose values are the selected source fields in the order of the columns of the generated statement. No batch is empty, none exceeds the batch size, and missing values stay NULL.",
    ["inputs", "schedules", "configurations"],
    "for all record counts, batch sizes, field selections, orders and NULL patterns of bounded size, for synchronous and asynchronous sources",
    "Batch size is one hundred thousand; tests never cross it, and no test omits a field in combination with a transformation.",
    ["base.py"],
    [("IterableDataSource, AsyncIterableDataSource, SelectorDataSource, TransformerDataSource, SelectorTransformerDataSource", "base.py"), ("BaseContext._generate_records", "base.py")],
    state=[("BATCH_SIZE", "records per batch", "base.py")],
    observe=["statements and batches passed to the driver layer"],
)
prop(
    "C10",
    "Labels are translated to lookup keys without loss, mix-up or invention",
    "When a column refers to a lookup table, each label of an inserted or updated record is replaced with the key that the lookup table assigns to that very label; new labels are registered first, existing ones keep their key, and NULL stays NULL. "
    "Lists and sets of labels are translated element by element in order. This holds for every batch of a load, also when later batches bring new labels.",
    ["inputs", "histories"],
    "for all labels, initial lookup table contents, batch boundaries and NULL patterns of bounded size",
    "Needs a live database in the existing tests, and runs there on one fixed data set within one batch.",
    ["base.py", "dialect/mysql/generator.py", "dialect/postgresql/generator.py"],
    [("EnumTransformer, EnumListTransformer", "base.py")],
    observe=["records passed to the driver layer, statements executed on the lookup table"],
)
prop(
    "C11",
    "Objects and raw values reach the driver in the representation of their column",
    "For every supported field type, plain or wrapped as optional, key, unique or annotated, converting an object to a record yields one value per column in column order, in the representation the dialect's driver stores without changing its meaning: enumerations by value, identifiers, network addresses and times in the dialect's format, documents as JSON. "
    "NULL stays NULL, and converting the same value as part of a raw row gives the same representation.",
    ["inputs", "configurations"],
    "for all supported field types and wrappers, all values of each type (symbolic where the solver applies), for each dialect",
    "Tests convert a few objects whose fields are never both wrapped and of a type that needs conversion.",
    ["base.py", "dialect/mysql/generator.py", "dialect/oracle/generator.py", "dialect/mssql/generator.py", "dialect/postgresql/generator.py"],
    [("get_field_extractor, get_value_transformer, get_dataclass_as_record", "base.py")],
    observe=["records returned for objects"],
)
prop(
    "C12",
    "The common type of a union can hold every value of every member type",
    "Whenever several types are reduced to a single column type, every value that fits any of the members fits the result, regardless of the order in which the members are listed. Where no such type exists, the reduction is refused.",
    ["inputs", "configurations"],
    "for all pairs and triples of types with arbitrary widths, signs, limits and storage sizes, in each dialect",
    "Tests cover three fixed unions.",
    ["model/data_types.py", "dialect/mysql/data_types.py", "dialect/mssql/data_types.py", "dialect/oracle/data_types.py", "dialect/postgresql/data_types.py"],
    [("compatible_type", "model/data_types.py")],
    observe=["the type returned, or the error"],
)
prop(
    "C13",
    "A column type survives being written to the database and discovered again",
    "The definition text generated for a column type, when read back by the dialect's discovery, yields a type that denotes the same column type, for all widths, precisions, scales, lengths, time zone flags and enumeration labels the dialect stores. "
    "The stored type is always at least as large as requested.",
    ["inputs", "configurations"],
    "for all type parameters (integers within the documented limits of the dialect) and all labels of bounded length",
    "Tests read back fewer than twenty fixed definitions; boundaries such as the sizes where a dialect switches storage types are not sampled.",
    ["formation/data_types.py", "model/data_types.py", "dialect/mysql/data_types.py", "dialect/mssql/data_types.py", "dialect/oracle/data_types.py", "dialect/postgresql/discovery.py", "dialect/oracle/discovery.py"],
    [("SqlDiscovery.sql_data_type_from_def / sql_data_type_from_spec", "formation/data_types.py"), ("__str__ of data types", "model/data_types.py")],
    observe=["definition text and the discovered type"],
)
prop(
    "C14",
    "A mapped column can store every value its Python type allows",
    "For every supported Python type, the generated column type has at least the range, precision and length that the type and its annotations allow; the column accepts NULL exactly if the field is optional, and is a key, unique or identity column exactly if the field says so. "
    "A default value of a field becomes a default of the column that denotes the same value; with the option that infers defaults, a required column of a Boolean, number, date or time type has one. The descriptions of a class and of its fields become those of the table (or composite type) and its columns (or members).",
    ["inputs", "configurations"],
    "for all supported types with arbitrary annotation parameters (lengths, precisions, ranges), optional or not, with arbitrary default values, in each dialect",
    "Tests sample fixed annotation parameters; boundaries are not covered.",
    ["formation/py_to_sql.py", "model/properties.py", "model/data_types.py", "dialect/mysql/data_types.py", "dialect/mssql/data_types.py", "dialect/oracle/data_types.py"],
    [("member_to_sql_data_type, member_to_column", "formation/py_to_sql.py"), ("get_field_properties", "model/properties.py")],
    observe=["columns of the generated model"],
)
prop(
    "C15",
    "Every table, type and column a generated model refers to is part of the model",
    "In the model derived from a set of classes, each foreign key refers to existing columns that form a key of an existing table with the same type, each user-defined column type is defined, each constraint mentions existing columns, constraint names are unique where the dialect requires it, and each class and enumeration that is needed appears exactly once. "
    "This holds wherever the classes are defined and whichever conversion modes are selected.",
    ["programs", "configurations"],
    "for all combinations of conversion modes, module placement of classes, and field kinds (references, self-references, unions, enumerations, structs, lists and sets of each) within the bound",
    "Tests use four fixed modules with a few mode combinations each.",
    ["formation/py_to_sql.py", "formation/inspection.py"],
    [("DataclassConverter.dataclasses_to_catalog", "formation/py_to_sql.py")],
    observe=["the generated model"],
)
prop(
    "C16",
    "Discovered keys and constraints are reassembled from catalog rows exactly",
    "From the rows a database catalog reports, discovery rebuilds each table with all its columns in order, the type, nullability, default and identity of each, its primary key columns in key order, and each unique and foreign constraint with its columns paired in position order, however the rows of different constraints are interleaved. "
    "Nothing is lost, merged across tables or invented.",
    ["inputs", "configurations"],
    "for all catalog contents of bounded size: arbitrary names, nullability, defaults, limits, and interleaving of constraint rows, for each dialect's discovery",
    "Discovery runs only against a live database in the existing tests, on tables whose constraints have one column.",
    ["formation/discovery.py", "formation/constraints.py", "dialect/postgresql/discovery.py", "dialect/mysql/discovery.py", "dialect/mssql/discovery.py", "dialect/oracle/discovery.py"],
    [("AnsiExplorer, ForeignFactory, UniqueFactory", "formation/discovery.py")],
    observe=["the discovered table"],
)
prop(
    "C17",
    "Query results are delivered row by row with every value in its own field",
    "A result set is delivered as exactly one item per row in row order; each value is assigned to the field of the same name (for classes) or position (for tuples and scalars), whatever the order of the result columns. Results whose shape does not match the requested signature are refused.",
    ["inputs", "configurations"],
    "for all numbers of rows, column orders and signatures within the bound, for rows delivered as tuples, dictionaries or objects",
    "Tests with fixed rows only, and mostly through a live database.",
    ["resultset.py"],
    [("resultset_unwrap_object, resultset_unwrap_tuple, resultset_unwrap_dict", "resultset.py")],
    observe=["the list returned for a query"],
)
prop(
    "C18",
    "Connection strings carry every parameter faithfully and never leak the password",
    "Parsing a connection string yields exactly the host, port, user name, password, database and TLS mode that were encoded in it, whatever characters they contain. Writing connection parameters as a string never reveals the password, and reading the string back gives the same other parameters.",
    ["inputs", "configurations"],
    "for all user names, passwords, hosts, databases, ports and modes of bounded length over all characters",
    "Tests parse fixed strings without special characters in most positions.",
    ["factory.py", "connection.py"],
    [("get_parameters", "factory.py"), ("ConnectionParameters.__str__", "connection.py")],
    observe=["connection parameters"],
)
prop(
    "C19",
    "The TLS mode is enforced whatever the server answers",
    "With a mode that requires encryption, no connection attempt is ever made without it, and certificates are verified whenever the mode asks for verification. With encryption disabled, none is attempted. With preferred or allowed modes, attempts are made in the documented order, each at most once, and failure of all of them is reported as an error.",
    ["fault_sequences", "configurations"],
    "for all modes, and all outcomes (success, refusal, failure) of each connection attempt",
    "Tests need a live server that cannot be made to refuse selected handshakes.",
    ["connection.py", "dialect/postgresql/connection.py", "dialect/mysql/connection.py"],
    [("ConnectionSSLMode, create_context", "connection.py"), ("PostgreSQLConnection.open, MySQLConnection.open", "dialect/postgresql/connection.py")],
    observe=["the sequence of connection attempts with their TLS contexts"],
)
prop(
    "C20",
    "Importing delimited files loses no record and keeps columns aligned",
    "Reading a delimited text file yields one record per data line, in order, with each requested field taken from the column with that name whatever the column order of the file; the header is never delivered as data, and a column that is not requested never shifts another. Writing records and reading them back yields the same records.",
    ["inputs"],
    "for all tables of bounded size: arbitrary header order, requested fields, number of records and cell contents",
    "Tests read one generated file with all columns.",
    ["data/exchange.py"],
    [("TextReader, AsyncTextReader, TextWriter", "data/exchange.py")],
    observe=["records read"],
)
prop(
    "C21",
    "Generated test data always satisfies the constraints of its class",
    "Whatever the random source yields, each generated object has a value of the right type for every field that satisfies the field's length, range and precision limits; key and unique fields never repeat, and optional fields take None or a valid value.",
    ["schedules", "inputs", "configurations"],
    "for all outcomes of the random source and all annotation parameters within the bound",
    "Tests generate a few hundred objects from one random sequence.",
    ["data/generator.py"],
    [("random_object generators", "data/generator.py")],
    observe=["generated objects"],
)
prop(
    "C22",
    "A failed statement never leaves the client believing it succeeded",
    "If executing a generated script fails, the schema that the client believes to exist is still the one from before, so that a retry generates the same script again; if it succeeds, the believed schema is the requested one. Errors of the database are reported with the statement and never swallowed; blank statements are refused.",
    ["fault_sequences", "histories"],
    "for all sequences of create, synchronize and drop operations of bounded length in which any execution may fail",
    "Tests never make a statement fail.",
    ["base.py"],
    [("BaseContext.create_objects, drop_objects, Explorer.synchronize", "base.py")],
    state=[("BaseGenerator.state", "schema the client believes to exist", "base.py")],
    observe=["statements executed, believed schema"],
)
prop(
    "C23",
    "Scripts are split into statements only at statement boundaries",
    "Where a driver accepts a single statement at a time, the parts that are executed are exactly the statements of the script, in order: every statement is executed once, none is empty, and text inside a literal or a procedural block never ends a statement.",
    ["inputs", "configurations"],
    "for all scripts assembled from generated statements with arbitrary literal contents of bounded length",
    "Only reached with a live Oracle or Redshift server.",
    ["dialect/oracle/connection.py", "dialect/redshift/connection.py"],
    [("_execute", "dialect/oracle/connection.py")],
    observe=["statements passed to the driver"],
)
prop(
    "C24",
    "A class derived from a table keeps its columns, keys, references and types",
    "For every table whose columns are of built-in Boolean, numeric, text, date and time, UUID or JSON types, or arrays of these, the derived class has exactly one field per column: first those of columns without a default expression, then those of columns with one (which the field carries as its default), each group in column order. A field is optional exactly if the column accepts NULL, is marked as the key exactly if the column belongs to the primary key, refers to the class of the referenced table (or any of the referenced tables) exactly if the column has a foreign (or discriminated) key, and otherwise has the Python type with the same size, sign, precision, scale and length limit as the column type. The class carries the names (adjusted if they are reserved Python keywords) and the descriptions of the table and its columns, and is registered in the module that the schema maps to, and nowhere else.",
    ["inputs", "configurations"],
    "for all tables of bounded size: arbitrary types and type parameters, nullability, keys and references",
    "Tests convert no table (the only test that does is skipped).",
    ["formation/sql_to_py.py"],
    [("SqlConverter.table_to_dataclass, column_to_field", "formation/sql_to_py.py")],
    observe=["fields of the derived class"],
)
prop(
    "C25",
    "Generated Python code defines exactly the class it was generated from",
    "The source text generated for a data-class or an enumeration class compiles, and executing it defines a class with the same name, documentation (descriptions of the class and its fields, up to white space in texts with several lines), constants, fields in order, field types with their annotations, default values, default factories and metadata, or the same members with values and documentation, whatever characters the documentation, the default values and the constants contain. The source text generated for a module can be executed on its own, and defines all classes of the module.",
    ["inputs", "programs"],
    "for all descriptions, constants and default values of bounded length, and all kinds of field types",
    "Tests compare the text for a few fixed classes and do not execute it.",
    ["python_types.py"],
    [("dataclass_to_code", "python_types.py")],
    observe=["source text and the class it defines"],
)
prop(
    "C26",
    "Merging and ordering schemas neither loses, duplicates nor redefines objects",
    "Merging two models yields every object of both exactly once, refuses conflicting definitions of the same object, and leaves the merged-in model unchanged and independent. Ordering arranges schemas such that each comes after all schemas it refers to, and keeps all of them.",
    ["inputs", "histories"],
    "for all models of bounded size with arbitrary names (equal or different) and definitions",
    "Tests merge disjoint fixed models only.",
    ["formation/object_types.py", "formation/object_dict.py"],
    [("Catalog.merge, Namespace.merge, Catalog.sort, ObjectDict", "formation/object_types.py")],
    observe=["the merged model"],
)

prop(
    "C27",
    "A synchronized live database has the requested schema and is then left alone",
    "Synchronizing modules of classes with a live database reads the schema that the database reports, and executes statements that the database accepts and after which it has exactly the tables, columns, types, defaults, keys and references that the classes describe. Objects in other schemas stay as they are. Synchronizing again, from the same or from another client, executes nothing at all. Dropping a schema removes all of its objects and no other.",
    ["inputs", "histories", "configurations"],
    "for all sequences of models of bounded size with which a database is synchronized, starting from an empty database or one with foreign objects, for each dialect that discovers schemas",
    "Tests that synchronize need a live database and are skipped here; they use a fixed pair of models per feature. What the database reports about an object differs in form from the statement that created it, in ways that depend on the value.",
    ["base.py", "formation/discovery.py", "formation/mutation.py", "dialect/postgresql/discovery.py", "dialect/mysql/discovery.py", "dialect/mssql/discovery.py", "dialect/oracle/discovery.py"],
    [("Explorer.synchronize, Explorer.discover", "base.py"), ("get_namespace, get_table", "formation/discovery.py"), ("Mutator.mutate_catalog_stmt", "formation/mutation.py")],
    observe=["the statements executed by each synchronization", "the objects of the database afterwards"],
)

prop(
    "C28",
    "A dialect is available under its name, and a missing driver affects no other",
    "A database engine dialect is found under the name with which it was registered, until it is unregistered; a registered dialect is never silently replaced, and a name that is not registered is refused. Every bundled dialect is available from the start. Whatever combination of database drivers is missing, using a dialect whose driver is missing fails with an error that names the module and how to install it, and every other dialect remains usable with its own generator and connection.",
    ["inputs", "histories", "configurations"],
    "for all sequences of bounded length of registering, unregistering and looking up dialects with any names, and for all combinations of missing drivers",
    "Tests run with all drivers installed and look up bundled dialects only; a mistake shows only with a specific combination of missing drivers, or with a specific history of names.",
    ["factory.py"],
    [("register_dialect, unregister_dialect, get_dialect, discover_dialects, UnavailableEngine", "factory.py")],
    observe=["the engine that a name refers to", "errors when a dialect is used"],
)

prop(
    "C29",
    "Reshaping a class keeps its fields, types, default values and documentation",
    "Turning a data-class into an entity makes the selected field its key and first field, with the default value that it had; all other fields keep their order, type, default value and default factory, and the class keeps its name, documentation and place in its module. A field that the class does not have is refused. Flattening a data-class replaces each member of a composite type, in place, with the fields of that type in order, named after both, with their types, default values and documentation, except that members of an optional composite accept None; all other fields are unchanged. A class made of a list of fields has exactly these fields, and the documentation of these fields only.",
    ["inputs", "configurations"],
    "for all data-classes of bounded size with fields of any of several types, with or without default values and documentation",
    "Tests reshape one fixed class each, and do so without optional composites or default factories.",
    ["model/entity_types.py", "util/dataclasses.py"],
    [("make_entity, key_value_fields", "model/entity_types.py"), ("flatten_dataclass, make_dataclass", "util/dataclasses.py")],
    observe=["the fields and the documentation of the class"],
)

prop(
    "C30",
    "Work that succeeds is durable, and connections are released",
    "Once an operation on a database returns without an error, its effects are committed, without any further call. A connection that is entered is used while it is open, and is closed exactly once when it is left, whether by success, an error of the database or an error of the caller, which is what the caller gets. Sessions have the settings on which generated statements rely. Functions run in a thread deliver their result or error to the caller.",
    ["fault_sequences", "inputs", "configurations"],
    "for all operations, statement texts and values of bounded size, and failure of any call to the driver or of the caller, for each dialect with a driver",
    "Tests with a connection need a live server and are skipped; none makes a call fail.",
    ["base.py", "util/dispatch.py", "dialect/postgresql/connection.py", "dialect/mysql/connection.py", "dialect/mssql/connection.py", "dialect/oracle/connection.py", "dialect/redshift/connection.py", "dialect/trino/connection.py"],
    [("BaseConnection.__aenter__, BaseConnection.__aexit__", "base.py"), ("thread_dispatch", "util/dispatch.py"), ("open, close", "dialect/mysql/connection.py")],
    observe=["statements executed and committed", "connections opened and closed", "results and errors"],
)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
