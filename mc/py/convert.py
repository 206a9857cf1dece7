"""Runs scripts/mps-generate-avro-data-helper.py against stand-ins for the avro and fastavro packages.

One request per line on stdin: {"schema": an Avro schema, "docs": [documents]}; one reply per line:
{"out": [what was appended to the data file], "error": the exception that ended the script or null}.
The script sees a scratch directory with the files that it reads, and writes only there.
"""
import base64, copy, json, os, shutil, sys, tempfile, types

SCRIPT = sys.argv[1]
NAME = "ns.doc.1"


class Schema:
    """The part of avro.schema that describes a type."""

    def __init__(self, s):
        self._json = s
        self.fields, self.schemas = [], []
        self.items = self.values = None
        if isinstance(s, list):
            self.type = "union"
            self.schemas = [make(x) for x in s]
            return
        if isinstance(s, str):
            self.type = s
            return
        t = s["type"]
        if isinstance(t, (list, dict)):
            self.__init__(t)
            return
        self.type = t
        self.name, self.namespace = s.get("name"), s.get("namespace")
        if t == "record":
            self.fields = [Field(f) for f in s["fields"]]
        elif t == "array":
            self.items = make(s["items"])
        elif t == "map":
            self.values = make(s["values"])

    @property
    def field_map(self):
        return {f.name: f for f in self.fields}

    fields_dict = field_map

    @property
    def fullname(self):
        return self.namespace + "." + self.name if self.namespace else self.name

    def to_json(self, *_):
        return copy.deepcopy(self._json)

    def __str__(self):
        return json.dumps(self._json)


class Field:
    def __init__(self, f):
        self._json = f
        self.name, self.type = f["name"], make(f["type"])
        self.has_default = "default" in f
        self.default = f.get("default")


written = []


class Writer:
    def __init__(self, out, datum_writer=None, schema=None, *a, **k):
        self.out = out

    def append(self, datum):
        written.append(copy.deepcopy(datum))

    def flush(self):
        pass

    def close(self):
        self.out.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    sys.modules[name] = m
    return m


def invalid(*a, **k):
    raise ValueError("not valid")


class PrimitiveSchema(Schema):
    pass


class NamedSchema(Schema):
    pass


class RecordSchema(NamedSchema):
    pass


class ArraySchema(Schema):
    pass


class MapSchema(Schema):
    pass


class UnionSchema(Schema):
    pass


def make(s, *_, **__):
    x = Schema(s)
    x.__class__ = {"union": UnionSchema, "record": RecordSchema, "array": ArraySchema, "map": MapSchema}.get(x.type, PrimitiveSchema)
    return x


parse = lambda s, *a, **k: make(json.loads(s))
avro = module("avro")
avro.schema = module("avro.schema", Parse=parse, parse=parse, SchemaFromJSONData=make, make_avsc_object=make, Schema=Schema, Field=Field,
                     PrimitiveSchema=PrimitiveSchema, NamedSchema=NamedSchema, RecordSchema=RecordSchema, ArraySchema=ArraySchema, MapSchema=MapSchema, UnionSchema=UnionSchema)
avro.datafile = module("avro.datafile", DataFileWriter=Writer)
avro.io = module("avro.io", DatumWriter=lambda *a, **k: None)
fastavro = module("fastavro", parse_schema=lambda s, *a, **k: s)
fastavro.validation = module("fastavro.validation", validate=invalid)


def plain(x):
    if isinstance(x, bytes):
        return {"\0bytes": base64.b64encode(x).decode()}
    if isinstance(x, dict):
        return {k if isinstance(k, str) else "\0" + repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


code = compile(open(SCRIPT, encoding="utf-8").read(), SCRIPT, "exec")
scratch = tempfile.mkdtemp(prefix="mc-convert-")
try:
    os.chdir(scratch)
    os.mkdir("data")
    os.mkdir("avro")
    stdout = sys.stdout
    for line in sys.stdin:
        q = json.loads(line)
        with open(f"avro/{NAME}.schema.json", "w", encoding="utf-8") as f:
            json.dump(q["schema"], f)
        with open(f"data/{NAME}.ndjson", "w", encoding="utf-8") as f:
            for d in q["docs"]:
                f.write(json.dumps(d, ensure_ascii=False) + "\n")
        written.clear()
        error = None
        sys.argv = [SCRIPT, NAME]
        sys.stdout = sys.stderr
        try:
            exec(code, {"__name__": "__main__", "__file__": SCRIPT})
        except BaseException as e:
            error = f"{type(e).__name__}: {e}"
        sys.stdout = stdout
        stdout.write(json.dumps({"out": plain(written), "error": error}) + "\n")
        stdout.flush()
finally:
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
