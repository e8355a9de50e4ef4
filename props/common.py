"Access to the dialects, and construction of models, shared by the harnesses."

from typing import Optional

from pysqlsync import factory
from pysqlsync.base import GeneratorOptions
from pysqlsync.formation.mutation import MutatorOptions
from pysqlsync.formation.object_types import (
    Catalog,
    CheckConstraint,
    ConstraintReference,
    EnumType,
    ForeignConstraint,
    StructMember,
    UniqueConstraint,
)
from pysqlsync.model.data_types import (
    SqlIntegerType,
    SqlUserDefinedType,
    SqlVariableCharacterType,
)
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift", "snowflake", "delta", "trino"]
# dialects whose statements are executed one table, column or constraint at a time
FLAT = ("mysql", "oracle")
TYPED = ("postgresql",)


def engine(dialect):
    return factory.get_dialect(dialect)


def generator(dialect, **options):
    return engine(dialect).create_generator(GeneratorOptions(**options))


def has_schemas(dialect) -> bool:
    return dialect not in FLAT


def has_types(dialect) -> bool:
    "Whether the dialect has enumeration and composite types that are objects of their own."
    return dialect in TYPED


def tid(dialect, schema: Optional[str], name: str):
    if has_schemas(dialect):
        # the default schema has an empty name
        return QualifiedId(schema or None, name)
    return PrefixedId(schema or None, name)


def schema_id(dialect, schema: str):
    return LocalId(schema if has_schemas(dialect) else "")


def int_type(dialect, width=8):
    if dialect == "oracle":
        from pysqlsync.dialect.oracle.data_types import OracleIntegerType

        return OracleIntegerType()
    return SqlIntegerType(width)


def text_type(dialect, limit=None):
    if dialect == "oracle":
        from pysqlsync.dialect.oracle.data_types import OracleVariableCharacterType as T
    elif dialect == "mysql":
        from pysqlsync.dialect.mysql.data_types import MySQLVariableCharacterType as T
    elif dialect == "mssql":
        from pysqlsync.dialect.mssql.data_types import MSSQLVariableCharacterType as T
    elif dialect == "delta":
        from pysqlsync.dialect.delta.data_types import DeltaVariableCharacterType as T
    else:
        T = SqlVariableCharacterType
    return T(limit)


def boolean_type(dialect):
    if dialect == "mssql":
        from pysqlsync.dialect.mssql.data_types import MSSQLBooleanType as T
    else:
        from pysqlsync.model.data_types import SqlBooleanType as T
    return T()


class Models:
    "Builds model objects of a dialect."

    def __init__(self, dialect, gen=None):
        self.dialect = dialect
        self.gen = gen if gen is not None else generator(dialect)
        self.factory = self.gen.factory

    def column(self, name, data_type, nullable=False, default=None, identity=False, description=None):
        return self.factory.column_class(
            LocalId(name), data_type, nullable, default=default, identity=identity, description=description
        )

    def table(self, schema, name, columns, key, constraints=(), description=None):
        return self.factory.table_class(
            tid(self.dialect, schema, name),
            columns,
            primary_key=tuple(LocalId(k) for k in ([key] if isinstance(key, str) else key)),
            constraints=list(constraints) or None,
            description=description,
        )

    def enum_table(self, schema, name, columns, key, values, constraints=(), description=None):
        return self.factory.enum_table_class(
            tid(self.dialect, schema, name),
            columns,
            values=values,
            primary_key=tuple(LocalId(k) for k in ([key] if isinstance(key, str) else key)),
            constraints=list(constraints) or None,
            description=description,
        )

    def foreign(self, name, columns, schema, table, ref_columns):
        return ForeignConstraint(
            LocalId(name),
            tuple(LocalId(c) for c in columns),
            ConstraintReference(tid(self.dialect, schema, table), tuple(LocalId(c) for c in ref_columns)),
        )

    def unique(self, name, columns):
        return UniqueConstraint(LocalId(name), tuple(LocalId(c) for c in columns))

    def check(self, name, condition):
        return CheckConstraint(LocalId(name), condition)

    def enum(self, schema, name, values):
        return EnumType(tid(self.dialect, schema, name), values)

    def struct(self, schema, name, members, description=None):
        return self.factory.struct_class(
            tid(self.dialect, schema, name),
            [StructMember(LocalId(n), t, d) for n, t, d in members],
            description,
        )

    def user_type(self, schema, name):
        return SqlUserDefinedType(tid(self.dialect, schema, name))

    def namespace(self, schema, enums=(), structs=(), tables=()):
        return self.factory.namespace_class(
            schema_id(self.dialect, schema), enums=list(enums), structs=list(structs), tables=list(tables)
        )

    def catalog(self, *namespaces):
        return Catalog(list(namespaces))

    def int(self, width=8):
        return int_type(self.dialect, width)

    def text(self, limit=None):
        return text_type(self.dialect, limit)

    def boolean(self):
        return boolean_type(self.dialect)


def mutate(dialect, source, target, **permissions):
    gen = generator(dialect, synchronization=MutatorOptions(**permissions))
    gen.state = source
    return gen.get_mutate_stmt(target)


class FakeConnection:
    "Stands in for a connection to a database."

    def __init__(self, gen, params=None):
        self.generator = gen
        self.params = params
        self.native = None


def _context_type(dialect):
    import importlib
    import inspect

    from pysqlsync.base import BaseContext

    try:
        module = importlib.import_module(f"pysqlsync.dialect.{dialect}.connection")
    except ModuleNotFoundError:
        return BaseContext
    for _, cls in inspect.getmembers(module, inspect.isclass):
        if issubclass(cls, BaseContext) and cls.__module__ == module.__name__:
            return cls
    return BaseContext


def fake_context(dialect, gen=None, answer=None, execute=None):
    """
    Creates the context class of a dialect, with access to the database replaced.

    :param answer: A function called with the signature and text of a query, which returns a list of records.
    :param execute: A function called with the text of a statement.
    """

    class Context(_context_type(dialect)):
        def __init__(self, connection):
            super().__init__(connection)
            self.log = []

        async def _execute(self, statement):
            self.log.append(statement)
            if execute is not None:
                execute(statement)

        async def _execute_all(self, statement, source):
            self.log.append(statement)
            data = []
            async for batch in source.batches():
                data.append(list(batch))
            self.log.append(data)

        async def _query_all(self, signature, statement):
            self.log.append(statement)
            return answer(signature, statement) if answer is not None else []

    return Context(FakeConnection(gen if gen is not None else generator(dialect)))
