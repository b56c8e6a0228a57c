"""Turns TableGen files into C++, standing in for mlir-tblgen (which is not
installed): operation classes (--gen-op-decls / --gen-op-defs), dialect classes,
and declarative rewrite patterns (--gen-rewriters). llvm-tblgen resolves the
TableGen language itself; this file gives the records mlir-tblgen's meaning.
Anything it does not know raises Unsupported."""
import json, re, subprocess

MLIR_INC = "/usr/lib/llvm-18/include"


class Unsupported(Exception):
    pass


def load(td, includes):
    p = subprocess.run(["llvm-tblgen-18", "--dump-json", "-I", MLIR_INC] + [x for i in includes for x in ("-I", i)] + [td],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise Unsupported(p.stderr.decode()[-3000:])
    return Records(json.loads(p.stdout))


def cap(s):  # TableGen's snake to upper camel case
    return "".join(w[:1].upper() + w[1:] for w in s.split("_"))


def fmt(t, sub):
    """tgfmt: substitutes $_name and $0, $1, ..."""
    def one(m):
        k = m.group(1)
        if k not in sub:
            raise Unsupported("no value for $%s in %r" % (k, t))
        return sub[k]
    return re.sub(r"\$(_[A-Za-z_]+|\d+)", one, t)


class Records:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, name):
        return self.d[name]

    def isa(self, name, cls):
        return cls in self.d[name]["!superclasses"]

    def derived(self, cls):
        names = self.d["!instanceof"].get(cls, [])
        return sorted(names, key=lambda n: int(re.sub(r"\D", "", n) or 0) if n.startswith("anonymous_") else -1)

    def ref(self, v):
        return v["def"]

    # -- predicates
    def pred(self, name):
        r = self.d[name]
        if "CPred" in r["!superclasses"]:
            return "(" + r["predExpr"] + ")"
        kind = r["kind"]["def"]
        kids = [c["def"] for c in r["children"]]
        if kind == "PredCombinerAnd":
            return "(" + (" && ".join(self.pred(k) for k in kids) or "true") + ")"
        if kind == "PredCombinerOr":
            return "(" + (" || ".join(self.pred(k) for k in kids) or "false") + ")"
        if kind == "PredCombinerNot":
            return "(!" + self.pred(kids[0]) + ")"
        if kind == "PredCombinerSubstLeaves":
            return self.pred(kids[0]).replace(r["pattern"], r["replacement"])
        if kind == "PredCombinerConcat":
            return r["prefix"] + self.pred(kids[0]) + r["suffix"]
        raise Unsupported("predicate " + kind)

    def constraint(self, name, sub):
        return fmt(self.pred(self.d[name]["predicate"]["def"]), sub)

    # -- operations
    def op(self, name):
        return OpDef(self, name)


class OpDef:
    def __init__(self, rec, name):
        self.rec, self.name, r = rec, name, rec[name]
        if "Op" not in r["!superclasses"]:
            raise Unsupported(name + " is not an operation")
        self.r = r
        self.cls = name.split("_", 1)[1] if "_" in name else name
        self.dialect = rec[r["opDialect"]["def"]]
        self.ns = r.get("cppNamespace") or self.dialect["cppNamespace"] or ""
        self.qual = (self.ns if self.ns.startswith("::") else "::" + self.ns) + "::" + self.cls
        self.opname = self.dialect["name"] + "." + r["opName"]
        self.args = []  # (kind, name, constraint def, variadic)
        for v, n in r["arguments"]["args"]:
            d = v["def"]
            sup = rec[d]["!superclasses"]
            if "Attr" in sup:
                self.args.append(("attr", n, d, False))
            elif "TypeConstraint" in sup:
                self.args.append(("operand", n, d, "Variadic" in sup or "Optional" in sup))
            else:
                raise Unsupported("argument %s of %s" % (n, name))
        self.results = [(n, v["def"], "Variadic" in rec[v["def"]]["!superclasses"]) for v, n in r["results"]["args"]]
        self.operands = [a for a in self.args if a[0] == "operand"]
        self.attrs = [a for a in self.args if a[0] == "attr"]
        if sum(o[3] for o in self.operands) > 1 or sum(x[2] for x in self.results) > 1:
            raise Unsupported("several variadic groups in " + name)
        self.traits = []

        def add(t):
            q = rec[t]
            if "TraitList" in q["!superclasses"]:
                for u in q["traits"]:
                    add(u["def"])
            else:
                self.traits.append(t)
        for t in r["traits"]:
            add(t["def"])

    def has(self, trait):
        return trait in self.traits


def aattr(rec, d):
    a = rec[d]
    while True:  # the default of Optional/Default wrappers is on the wrapper itself
        break
    return a


def storage(rec, d):
    s = rec[d]["storageType"].strip()
    return s if s.startswith("::") or s.startswith("mlir::") else "::mlir::" + s


def default_of(rec, d):
    v = rec[d].get("defaultValue")
    return v if v not in (None, "") else None


def const_build(rec, d, value, builder):
    a = rec[d]
    t = a["constBuilderCall"]
    if not t:
        raise Unsupported("no constBuilderCall for " + d)
    return fmt(t, {"_builder": builder, "0": value, "_self": value})


def unwrappable(rec, d):
    a = rec[d]
    return a["returnType"].strip() != a["storageType"].strip() and a["constBuilderCall"] and not a.get("isOptional")


OPTRAITS = {
    "NoMemoryEffect": ["::mlir::MemoryEffectOpInterface::Trait"],
    "AlwaysSpeculatableImplTrait": ["::mlir::ConditionallySpeculatable::Trait", "::mlir::OpTrait::AlwaysSpeculatableImplTrait"],
    "ConditionallySpeculatable": [],
    "ConstantLike": ["::mlir::OpTrait::ConstantLike"],
    "SameOperandsAndResultType": ["::mlir::OpTrait::SameOperandsAndResultType"],
    "SameOperandsAndResultShape": ["::mlir::OpTrait::SameOperandsAndResultShape"],
    "SameOperandsAndResultElementType": ["::mlir::OpTrait::SameOperandsAndResultElementType"],
    "Commutative": ["::mlir::OpTrait::IsCommutative"],
    "Idempotent": ["::mlir::OpTrait::IsIdempotent"],
}


def op_params(op, wrapped):
    out, body = [], []
    for kind, n, d, var in op.args:
        if kind == "operand":
            out.append(("::mlir::ValueRange " if var else "::mlir::Value ") + n)
            body.append("  odsState.addOperands(%s);" % n)
        else:
            a = op.rec[d]
            if not wrapped and unwrappable(op.rec, d):
                out.append(a["returnType"].strip() + " " + n)
                body.append('  odsState.addAttribute("%s", %s);' % (n, const_build(op.rec, d, n, "odsBuilder")))
            else:
                out.append(storage(op.rec, d) + " " + n)
                body.append('  if (%s) odsState.addAttribute("%s", %s);' % (n, n, n))
    return ", ".join(out), "\n".join(body)


def gen_op(op):
    rec, C = op.rec, op.cls
    traits = ["::mlir::OpTrait::ZeroRegions"]
    if len(op.results) == 1 and not op.results[0][2]:
        ct = rec[op.results[0][1]].get("cppType") or rec[op.results[0][1]].get("cppClassName") or "::mlir::Type"
        traits += ["::mlir::OpTrait::OneResult", "::mlir::OpTrait::OneTypedResult<%s>::Impl" % ct]
    elif any(r[2] for r in op.results):
        traits.append("::mlir::OpTrait::VariadicResults")
    elif not op.results:
        traits.append("::mlir::OpTrait::ZeroResults")
    else:
        traits.append("::mlir::OpTrait::NResults<%d>::Impl" % len(op.results))
    traits.append("::mlir::OpTrait::ZeroSuccessors")
    n = len(op.operands)
    if any(o[3] for o in op.operands):
        traits.append("::mlir::OpTrait::VariadicOperands")
    else:
        traits.append("::mlir::OpTrait::ZeroOperands" if n == 0 else "::mlir::OpTrait::OneOperand" if n == 1 else "::mlir::OpTrait::NOperands<%d>::Impl" % n)
    traits.append("::mlir::OpTrait::OpInvariants")
    noeffect = False
    for t in op.traits:
        if t == "NoMemoryEffect" or rec[t].get("!name", "").startswith("NoMemoryEffect"):
            noeffect = True
        if t in OPTRAITS:
            traits += [x for x in OPTRAITS[t] if x not in traits]
        elif "MemoryEffects" in rec[t]["!superclasses"] and rec[t].get("effects") == []:
            noeffect = True
            traits += [x for x in OPTRAITS["NoMemoryEffect"] if x not in traits]
        elif "DeclareInterfaceMethods" in rec[t]["!superclasses"] or "InterfaceTrait" in rec[t]["!superclasses"] or "OpInterfaceTrait" in rec[t]["!superclasses"]:
            if rec[t].get("cppInterfaceName") in ("InferTypeOpInterface", "ConditionallySpeculatable", "MemoryEffectOpInterface"):
                continue
            raise Unsupported("interface %s on %s" % (t, op.name))
        elif "NativeTrait" in rec[t]["!superclasses"]:
            traits.append("%s::%s" % (rec[t]["cppNamespace"], rec[t]["trait"]))
        else:
            raise Unsupported("trait %s on %s" % (t, op.name))
    decl, defs = [], []
    D = decl.append

    def F(ret, name, params, body, static=False, suffix="", dparams=None):
        D("  %s%s %s(%s)%s;" % ("static " if static else "", ret, name, dparams or params, suffix))
        defs.append("%s %s::%s(%s)%s {\n%s\n}" % (ret, C, name, params, suffix, body))

    D("class %s : public ::mlir::Op<%s, %s> {\n public:\n  using Op::Op;\n  using Op::print;" % (C, C, ", ".join(traits)))
    D("  class FoldAdaptor {\n    ::llvm::ArrayRef<::mlir::Attribute> operands_;\n    ::mlir::Operation* op_;\n   public:")
    D("    FoldAdaptor(::llvm::ArrayRef<::mlir::Attribute> o, %s op) : operands_(o), op_(op.getOperation()) {}" % C)
    D("    ::llvm::ArrayRef<::mlir::Attribute> getOperands() { return operands_; }")
    for i, (k, nme, d, var) in enumerate(op.operands):
        if not var:
            D("    ::mlir::Attribute get%s() { return operands_[%d]; }" % (cap(nme), i))
    for k, nme, d, _ in op.attrs:
        D('    auto get%s() { return ::llvm::cast<%s>(op_).get%s(); }' % (cap(nme), C, cap(nme)) if False else "")
    D("  };\n  using GenericAdaptorBase = FoldAdaptor;")
    D('  static constexpr ::llvm::StringLiteral getOperationName() { return ::llvm::StringLiteral("%s"); }' % op.opname)
    names = ", ".join('"%s"' % a[1] for a in op.attrs)
    D("  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { %s }" % (
        "static ::llvm::StringRef names[] = {%s}; return ::llvm::ArrayRef(names);" % names if names else "return {};"))
    # operand and result groups
    for what, groups, getter in (("Operand", [(o[1], o[2], o[3]) for o in op.operands], "getOperation()->getOperands()"),
                                 ("Result", op.results, "getOperation()->getResults()")):
        vi = next((i for i, g in enumerate(groups) if g[2]), None)
        cnt = len(groups)
        rng = "::mlir::Operation::%s_range" % what.lower()
        D("  %s getODS%ss(unsigned index) {" % (rng, what))
        D("    auto all = %s;" % getter)
        if vi is None:
            D("    return all.slice(index, 1);" if False else "    return {std::next(all.begin(), index), std::next(all.begin(), index + 1)};")
        else:
            D("    unsigned var = (unsigned)all.size() - %d;" % (cnt - 1))
            D("    unsigned start = index <= %d ? index : index - 1 + var, size = index == %d ? var : 1;" % (vi, vi))
            D("    return {std::next(all.begin(), start), std::next(all.begin(), start + size)};")
        D("  }")
        for i, (nme, d, var) in enumerate(groups):
            if not nme:
                continue
            if var:
                D("  %s get%s() { return getODS%ss(%d); }" % (rng, cap(nme), what, i))
            else:
                ct = rec[d].get("cppType") or rec[d].get("cppClassName") or "::mlir::Type"
                tv = "::mlir::Value" if ct == "::mlir::Type" else "::mlir::TypedValue<%s>" % ct
                D("  %s get%s() { return ::llvm::cast<%s>(::mlir::Value(*getODS%ss(%d).begin())); }" % (tv, cap(nme), tv, what, i))
            if what == "Operand" and not var and vi is None:
                D("  ::mlir::OpOperand& get%sMutable() { return getOperation()->getOpOperand(%d); }" % (cap(nme), i))
    for k, nme, d, _ in op.attrs:
        a, st = rec[d], storage(rec, d)
        optional, dv = a.get("isOptional"), default_of(rec, d)
        D('  %s get%sAttr() { return getOperation()->getAttrOfType<%s>("%s"); }' % (st, cap(nme), st, nme))
        D('  void set%sAttr(%s attr) { getOperation()->setAttr("%s", attr); }' % (cap(nme), st, nme))
        ret = a["returnType"].strip() or st
        body = "    auto attr = get%sAttr();\n" % cap(nme)
        if dv is not None:
            body += "    if (!attr) { ::mlir::Builder odsBuilder(getOperation()->getContext()); attr = %s; }\n" % const_build(rec, d, dv, "odsBuilder")
        if optional and dv is None and st == "::mlir::UnitAttr":
            ret, body = "bool", "    return (bool)getOperation()->getAttr(\"%s\");\n" % nme
        elif optional and dv is None:
            ret = "::std::optional<%s>" % (a["returnType"].strip())
            body += "    return attr ? %s(%s) : ::std::nullopt;\n" % (ret, fmt(a["convertFromStorage"] or "$_self", {"_self": "attr"}))
        else:
            body += "    return %s;\n" % fmt(a["convertFromStorage"] or "$_self", {"_self": "attr"})
        D("  %s get%s() {\n%s  }" % (ret, cap(nme), body))
        if unwrappable(rec, d):
            D("  void set%s(%s value) { ::mlir::Builder odsBuilder(getOperation()->getContext()); set%sAttr(%s); }" % (
                cap(nme), a["returnType"].strip(), cap(nme), const_build(rec, d, "value", "odsBuilder")))
    # defaults
    dl = [(nme, d) for k, nme, d, _ in op.attrs if default_of(rec, d) is not None and not rec[d].get("isOptional")]
    if dl:
        F("void", "populateDefaultAttrs", "const ::mlir::OperationName& opName, ::mlir::NamedAttrList& attributes",
          "  ::mlir::Builder odsBuilder(::mlir::OperationName(opName).getContext());\n" + "\n".join(
              '  if (!attributes.get("%s")) attributes.append("%s", %s);' % (nme, nme, const_build(rec, d, default_of(rec, d), "odsBuilder")) for nme, d in dl), static=True)
    # builders
    BS = "::mlir::OpBuilder& odsBuilder, ::mlir::OperationState& odsState"
    for bref in op.r["builders"] or []:
        b = rec[bref["def"]]
        ps = []
        for v, nme in b["dagParams"]["args"]:
            if isinstance(v, str):
                t = v
            elif isinstance(v, dict) and rec.isa(v["def"], "CArg"):
                t = rec[v["def"]]["type"]
            else:
                raise Unsupported("builder of " + op.name)
            t = t.strip()
            if re.match(r"^(Value|Type|StringAttr|BoolAttr|UnitAttr|IntegerAttr|Attribute|ValueRange|TypeRange)$", t):
                t = "::mlir::" + t
            ps.append(t + " " + nme)
        pl = "::mlir::OpBuilder& $B, ::mlir::OperationState& $S" + "".join(", " + p for p in ps)
        pl = pl.replace("$B", "odsBuilder").replace("$S", "odsState")
        if b.get("body"):
            F("void", "build", pl, fmt(b["body"], {"_builder": "odsBuilder", "_state": "odsState"}), static=True)
        else:
            D("  static void build(%s);" % pl)
    if not op.r.get("skipDefaultBuilders"):
        agg = "  odsState.addOperands(operands);\n  odsState.addAttributes(attributes);\n"
        F("void", "build", BS + ", ::mlir::TypeRange resultTypes, ::mlir::ValueRange operands, ::llvm::ArrayRef<::mlir::NamedAttribute> attributes",
          agg + "  odsState.addTypes(resultTypes);", static=True,
          dparams=BS + ", ::mlir::TypeRange resultTypes, ::mlir::ValueRange operands, ::llvm::ArrayRef<::mlir::NamedAttribute> attributes = {}")
        same = op.has("SameOperandsAndResultType")
        if same:
            F("void", "build", BS + ", ::mlir::ValueRange operands, ::llvm::ArrayRef<::mlir::NamedAttribute> attributes",
              agg + "  odsState.addTypes({operands[0].getType()});", static=True)
        variants = [True] + ([False] if any(unwrappable(rec, a[2]) for a in op.attrs) else [])
        for w in variants:
            ps, body = op_params(op, w)
            ps = (", " + ps) if ps else ""
            if len(op.results) == 1 and not op.results[0][2]:
                F("void", "build", BS + ", ::mlir::Type resultType" + ps, body + "\n  odsState.addTypes(resultType);", static=True)
            # the collective builder above already covers (TypeRange, ValueRange)
            if not (len(op.args) == 1 and op.args[0][0] == "operand" and op.args[0][3]):
                F("void", "build", BS + ", ::mlir::TypeRange resultTypes" + ps, body + "\n  odsState.addTypes(resultTypes);", static=True)
            if same and not op.r["builders"]:
                F("void", "build", BS + ps, body + "\n  odsState.addTypes({%s.getType()});" % op.operands[0][1], static=True)
    # verification
    v = []
    for k, nme, d, _ in op.attrs:
        a = rec[d]
        sub = {"_self": "attr", "_op": "(*this->getOperation())", "_builder": "odsBuilder"}
        v.append('  { ::mlir::Attribute attr = getOperation()->getAttr("%s");' % nme)
        if not a.get("isOptional") and default_of(rec, d) is None:
            v.append('    if (!attr) return emitOpError("requires attribute \'%s\'");' % nme)
        v.append('    if (attr && !%s) return emitOpError("attribute \'%s\' failed to satisfy its constraint"); }' % (rec.constraint(d, sub), nme))
    for what, groups in (("operand", [(o[1], o[2]) for o in op.operands]), ("result", [(r[0], r[1]) for r in op.results])):
        for i, (nme, d) in enumerate(groups):
            base = rec[d].get("baseType")
            cd = base["def"] if base and ("Variadic" in rec[d]["!superclasses"] or "Optional" in rec[d]["!superclasses"]) else d
            v.append("  for (::mlir::Value value : getODS%ss(%d)) { ::mlir::Type type = value.getType(); (void)type;" % (what.capitalize(), i))
            v.append('    if (!%s) return emitOpError("%s #%d has a type it must not have: ") << type; }' % (
                rec.constraint(cd, {"_self": "type", "_op": "(*this->getOperation())"}), what, i))
    F("::llvm::LogicalResult" if False else "::mlir::LogicalResult", "verifyInvariantsImpl", "", "  ::mlir::Builder odsBuilder(getOperation()->getContext()); (void)odsBuilder;\n" + "\n".join(v) + "\n  return ::mlir::success();")
    F("::mlir::LogicalResult", "verifyInvariants", "", "  return verifyInvariantsImpl();")
    if noeffect:
        D("  void getEffects(::llvm::SmallVectorImpl<::mlir::SideEffects::EffectInstance<::mlir::MemoryEffects::Effect>>&) {}")
    if op.r["hasFolder"]:
        if len(op.results) == 1 and not op.results[0][2]:
            D("  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);")
        else:
            D("  ::mlir::LogicalResult fold(FoldAdaptor adaptor, ::llvm::SmallVectorImpl<::mlir::OpFoldResult>& results);")
    if op.r["hasVerifier"]:
        D("  ::mlir::LogicalResult verify();")
    if op.r["hasCanonicalizer"]:
        D("  static void getCanonicalizationPatterns(::mlir::RewritePatternSet& results, ::mlir::MLIRContext* context);")
    if op.r["hasCanonicalizeMethod"]:
        D("  static ::mlir::LogicalResult canonicalize(%s op, ::mlir::PatternRewriter& rewriter);" % C)
        D("  static void getCanonicalizationPatterns(::mlir::RewritePatternSet& results, ::mlir::MLIRContext*) { results.add(canonicalize); }")
    if op.r["hasCustomAssemblyFormat"] or op.r["assemblyFormat"]:
        raise Unsupported("assembly format of " + op.name)
    if op.r["extraClassDeclaration"]:
        D(op.r["extraClassDeclaration"])
    D("};")
    return decl, defs


def namespaces(ns):
    parts = [p for p in ns.split("::") if p]
    return "".join("namespace %s {\n" % p for p in parts), "}\n" * len(parts)


def gen_ops(rec, dialect):
    """Returns (header, source) for every op of the dialect."""
    ops = [rec.op(n) for n in rec.derived("Op") if rec[n]["opDialect"]["def"] == dialect]
    if not ops:
        raise Unsupported("no operations in " + dialect)
    h, s, lst = [], [], []
    for op in ops:
        o, c = namespaces(op.ns)
        decl, defs = gen_op(op)
        h.append(o + "class %s;\n" % op.cls + c)
        lst.append(op.qual)
    ids_h, ids_s = [], []
    for op in ops:
        o, c = namespaces(op.ns)
        decl, defs = gen_op(op)
        h.append(o + "\n".join(decl) + "\n" + c)
        s.append(o + "\n".join(defs) + "\n" + c)
        ids_h.append("MLIR_DECLARE_EXPLICIT_TYPE_ID(%s)" % op.qual)
        ids_s.append("MLIR_DEFINE_EXPLICIT_TYPE_ID(%s)" % op.qual)
    header = "#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n" + "\n".join(h) + "\n" + "\n".join(ids_h) + "\n#endif\n"
    source = ("#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n" + ",\n".join(lst) + "\n#endif\n"
              "#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n" + "\n".join(s) + "\n" + "\n".join(ids_s) + "\n#endif\n")
    return header, source


def gen_dialect(rec, dialect):
    d = rec[dialect]
    cls = dialect if dialect.endswith("Dialect") else dialect + "Dialect"
    o, c = namespaces(d["cppNamespace"])
    q = "::".join([""] + [p for p in d["cppNamespace"].split("::") if p] + [cls])
    h = o + "class %s : public ::mlir::Dialect {\n  explicit %s(::mlir::MLIRContext* context);\n  void initialize();\n  friend class ::mlir::MLIRContext;\n public:\n  ~%s() override;\n" % (cls, cls, cls)
    h += '  static constexpr ::llvm::StringLiteral getDialectNamespace() { return ::llvm::StringLiteral("%s"); }\n' % d["name"]
    if d["hasConstantMaterializer"]:
        h += "  ::mlir::Operation* materializeConstant(::mlir::OpBuilder& builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc) override;\n"
    if d.get("extraClassDeclaration"):
        h += d["extraClassDeclaration"] + "\n"
    h += "};\n" + c + "MLIR_DECLARE_EXPLICIT_TYPE_ID(%s)\n" % q
    s = "MLIR_DEFINE_EXPLICIT_TYPE_ID(%s)\n" % q + o
    s += "%s::%s(::mlir::MLIRContext* context) : ::mlir::Dialect(getDialectNamespace(), context, ::mlir::TypeID::get<%s>()) {\n" % (cls, cls, cls)
    for dep in d.get("dependentDialects") or []:
        s += "  getContext()->loadDialect<%s>();\n" % dep
    s += "  initialize();\n}\n%s::~%s() = default;\n" % (cls, cls) + c
    return h, s


# ------------------------------------------------------------------ rewriters
class Pattern:
    def __init__(self, rec, name, index):
        self.rec, self.name, self.index = rec, name, index
        self.p = rec[name]
        self.sym = {}      # name -> (kind, C++ expression for the range, expression for a single value)
        self.decls, self.out, self.n, self.attr_n = [], [], 0, 0
        self.ops_used = []

    def w(self, s):
        self.out.append("    " + s)

    def opdef(self, init):
        return self.rec.op(init["def"])

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # -- matching
    def bind(self, name, kind, rng, one):
        name = name.split("__")[0] if "__" in name else name
        if name in self.sym:
            self.w("if (%s != %s) return ::mlir::failure();" % (self.sym[name][2], one))
        else:
            self.sym[name] = (kind, rng, one)

    def match(self, dag, opv):
        op = self.opdef(dag["operator"])
        cv = self.fresh("casted")
        self.w("auto %s = ::llvm::dyn_cast<%s>(%s);" % (cv, op.qual, opv))
        self.w("if (!%s) return ::mlir::failure();" % cv)
        self.w("tblgen_ops.push_back(%s);" % opv)
        if dag.get("name"):
            if len(op.results) == 0:
                raise Unsupported("bound op without results")
            self.sym[dag["name"]] = ("op", "%s.getODSResults(0)" % cv, "(*%s.getODSResults(0).begin())" % cv)
        args = dag["args"]
        if len(args) != len(op.args):
            raise Unsupported("%s given %d arguments" % (op.name, len(args)))
        oi = 0
        for (v, n), (kind, an, d, var) in zip(args, op.args):
            if kind == "operand":
                rng = "%s.getODSOperands(%d)" % (cv, oi)
                oi += 1
                if isinstance(v, dict) and v["kind"] == "dag":
                    if not self.rec.isa(v["operator"]["def"], "Op"):
                        raise Unsupported("%s in a source pattern" % v["operator"]["def"])
                    if var:
                        raise Unsupported("nested pattern in a variadic operand")
                    ov = self.fresh("op")
                    self.w("::mlir::Operation* %s = (*%s.begin()).getDefiningOp();" % (ov, rng))
                    self.w("if (!%s) return ::mlir::failure();" % ov)
                    self.match(v, ov)
                    if n:
                        self.bind(n, "operand", rng, "(*%s.begin())" % rng)
                    continue
                if v is not None:
                    if not self.rec.isa(v["def"], "TypeConstraint"):
                        raise Unsupported("operand constraint " + v["def"])
                    self.w("if (!%s) return ::mlir::failure();" % self.rec.constraint(v["def"], {"_self": "(*%s.begin()).getType()" % rng}))
                if n:
                    rv = self.fresh("operand")
                    self.w("::mlir::Operation::operand_range %s = %s;" % (rv, rng))
                    self.bind(n, "operand", rv, rv if var else "(*%s.begin())" % rv)
                    self.sym[n] = ("variadic" if var else "operand",) + self.sym[n][1:]
            else:
                st = storage(self.rec, d)
                at = self.fresh("attr")
                self.w('auto %s = %s->getAttrOfType<%s>("%s"); (void)%s;' % (at, cv, st, an, at))
                dv = default_of(self.rec, d)
                if dv is not None:
                    self.w("if (!%s) %s = %s;" % (at, at, const_build(self.rec, d, dv, "rewriter")))
                elif not self.rec[d].get("isOptional"):
                    self.w("if (!%s) return ::mlir::failure();" % at)
                if v is not None:
                    if isinstance(v, str):
                        self.w('if (%s != rewriter.getStringAttr("%s")) return ::mlir::failure();' % (at, v))
                    else:
                        if v["kind"] == "dag" or not self.rec.isa(v["def"], "AttrConstraint"):
                            raise Unsupported("attribute constraint %s" % v)
                        self.w("{ ::mlir::Attribute self = %s; (void)self; if (!%s) return ::mlir::failure(); }" % (
                            at, self.rec.constraint(v["def"], {"_self": at, "_builder": "rewriter", "_op": "(*%s)" % opv})))
                if n:
                    self.bind(n, "attr", at, at)

    # -- results
    def value(self, v, n, depth):
        """A C++ expression for an argument (an attribute or a value)."""
        if isinstance(v, dict) and v["kind"] == "dag":
            return self.result(v, depth + 1)[2]
        if v is None:
            if n not in self.sym:
                raise Unsupported("unbound $%s" % n)
            return self.sym[n][2]
        if isinstance(v, str):
            return 'rewriter.getStringAttr("%s")' % v
        if isinstance(v, (int, bool)):
            raise Unsupported("literal %r" % v)
        d = v["def"]
        sup = self.rec[d]["!superclasses"]
        if "ConstantAttr" in sup or "ConstantStrAttr" in sup or ("attr" in self.rec[d] and "value" in self.rec[d]):
            r = self.rec[d]
            return const_build(self.rec, r["attr"]["def"], r["value"], "rewriter")
        if "NativeCodeCall" in sup:
            return fmt(self.rec[d]["expression"], {"_self": self.sym[n][2], "_builder": "rewriter", "_loc": "odsLoc"})
        if n and n in self.sym:  # constraint repeated in the result
            return self.sym[n][2]
        raise Unsupported("result argument " + d)

    def native(self, dag, depth):
        r = self.rec[dag["operator"]["def"]]
        sub = {"_builder": "rewriter", "_loc": "odsLoc"}
        for i, (v, n) in enumerate(dag["args"]):
            sub[str(i)] = self.value(v, n, depth)
        if dag.get("name"):
            raise Unsupported("bound native code call")
        return fmt(r["expression"], sub)

    def result(self, dag, depth, types=None):
        """Emits a result pattern; returns (kind, range expression, single expression)."""
        d = dag["operator"]["def"]
        if d == "replaceWithValue":
            v, n = dag["args"][0]
            if v is None and self.sym[n][0] == "variadic":
                return ("variadic", self.sym[n][1], self.sym[n][1])
            e = self.value(v, n, depth)
            return ("operand", e, e)
        if self.rec.isa(d, "NativeCodeCall"):
            e = "(" + self.native(dag, depth) + ")"
            return ("operand", e, e)
        op = self.opdef(dag["operator"])
        if len(dag["args"]) != len(op.args):
            raise Unsupported("%s given %d arguments (location directive?)" % (op.name, len(dag["args"])))
        self.ops_used.append(op.opname)
        vals = []
        for (v, n), (kind, an, ad, var) in zip(dag["args"], op.args):
            if var:
                raise Unsupported("variadic operand in a result pattern")
            t = self.fresh("arg")
            self.w("auto %s = %s;" % (t, self.value(v, n, depth)))
            vals.append((kind, an, t))
        rv = self.fresh("res")
        aggregate = op.has("SameOperandsAndResultType") or (types is not None and depth == 0)
        if aggregate:
            vs = self.fresh("values")
            self.w("::llvm::SmallVector<::mlir::Value, 4> %s; ::llvm::SmallVector<::mlir::NamedAttribute, 4> %sA;" % (vs, vs))
            for kind, an, t in vals:
                if kind == "operand":
                    self.w("%s.push_back(%s);" % (vs, t))
                else:
                    self.w('if (%s) %sA.emplace_back(rewriter.getStringAttr("%s"), %s);' % (t, vs, an, t))
            ty = "" if op.has("SameOperandsAndResultType") else types + ", "
            self.w("auto %s = rewriter.create<%s>(odsLoc, %s::mlir::ValueRange(%s), ::llvm::ArrayRef<::mlir::NamedAttribute>(%sA));" % (rv, op.qual, ty, vs, vs))
        else:
            self.w("auto %s = rewriter.create<%s>(odsLoc, %s);" % (rv, op.qual, ", ".join(t for _, _, t in vals)))
        if op.name == "Arith_ConstantOp":
            r = ("op", "%s->getResults()" % rv, "::mlir::Value(%s->getResult(0))" % rv)
        else:
            r = ("op", "%s.getODSResults(0)" % rv, "::mlir::Value(*%s.getODSResults(0).begin())" % rv)
        if dag.get("name"):
            self.sym[dag["name"]] = r
        return r

    def gen(self):
        rec, p = self.rec, self.p
        src = p["sourcePattern"]
        root = self.opdef(src["operator"])
        self.match(src, "op0")
        n_ops = sum("tblgen_ops.push_back" in l for l in self.out)
        for c in p["constraints"]:
            d = c["operator"]["def"]
            sub = {"_builder": "rewriter", "_loc": "op0->getLoc()"}
            for i, (v, n) in enumerate(c["args"]):
                sub[str(i)] = self.value(v, n, 0)
            if "0" in sub and rec.isa(d, "TypeConstraint"):
                sub["_self"] = sub["0"] + ".getType()"
            elif "0" in sub:
                sub["_self"] = sub["0"]
            self.w("if (!%s) return ::mlir::failure();" % rec.constraint(d, sub))
        if p.get("supplementalPatterns"):
            raise Unsupported("supplemental patterns")
        self.w("::llvm::SmallVector<::mlir::Location, 4> locs; for (auto* o : tblgen_ops) locs.push_back(o->getLoc());")
        self.w("::mlir::Location odsLoc = rewriter.getFusedLoc(locs); (void)odsLoc;")
        self.w("::llvm::SmallVector<::mlir::Value, 4> repl;")
        rp = p["resultPatterns"]
        nrep = 1 if any(r[2] for r in root.results) else len(root.results)
        if len(rp) < nrep:
            raise Unsupported("fewer results than the root has")
        for i, r in enumerate(rp):
            if i < len(rp) - nrep:
                self.result(r, 0)
                continue
            ri = i - (len(rp) - nrep)
            ty = self.fresh("types")
            if r["operator"]["def"] == "replaceWithValue" or rec.isa(r["operator"]["def"], "NativeCodeCall"):
                kind, rng, one = self.result(r, 0)
            else:
                self.w("::llvm::SmallVector<::mlir::Type, 4> %s; for (auto v : casted1.getODSResults(%d)) %s.push_back(v.getType());" % (ty, ri, ty))
                kind, rng, one = self.result(r, 0, ty)
            if kind == "variadic":
                self.w("for (auto v : %s) repl.push_back(v);" % rng)
            elif kind == "op":
                self.w("for (auto v : ::llvm::SmallVector<::mlir::Value, 4>(%s.begin(), %s.end())) repl.push_back(v);" % (rng, rng))
            else:
                self.w("repl.push_back(%s);" % one)
        self.w("rewriter.replaceOp(op0, repl);")
        self.w("return ::mlir::success();")
        ben = p["benefitDelta"]
        if ben["operator"]["def"] != "addBenefit":
            raise Unsupported("benefit")
        benefit = n_ops + int(ben["args"][0][0])
        used = ", ".join('"%s"' % x for x in sorted(set(self.ops_used)))
        return ("struct GeneratedConvert%d : public ::mlir::RewritePattern {\n  GeneratedConvert%d(::mlir::MLIRContext* context)\n"
                "      : ::mlir::RewritePattern(\"%s\", %d, context, {%s}) {}\n"
                "  ::mlir::LogicalResult matchAndRewrite(::mlir::Operation* op0, ::mlir::PatternRewriter& rewriter) const override {\n"
                "    ::llvm::SmallVector<::mlir::Operation*, 4> tblgen_ops;\n%s\n  }\n};\n") % (
                    self.index, self.index, root.opname, benefit, used, "\n".join(self.out))


def gen_rewriters(rec):
    pats = rec.derived("Pattern")
    out = [Pattern(rec, n, i).gen() for i, n in enumerate(pats)]
    out.append("inline void populateWithGenerated(::mlir::RewritePatternSet& patterns) {\n" +
               "".join("  patterns.add<GeneratedConvert%d>(patterns.getContext());\n" % i for i in range(len(pats))) + "}\n")
    return "\n".join(out)


REWRITERS = {
    "fuse_padding": "fuse_padding.td", "op_removal": "op_removal_patterns.td",
    "prepare_target_arm": "prepare_patterns_target_arm.td", "prepare_target_other": "prepare_patterns_common.td",
    "optimize_target_arm": "optimize_patterns_target_arm.td", "optimize_target_other": "optimize_patterns_common.td",
    "bitpack_activations": "bitpack_activations_patterns.td", "bitpack_weights": "bitpack_weights_patterns.td",
    "quantize": "quantize_patterns.td",
}


def generate(repo, shim, out):
    """Writes every generated file under `out`."""
    import os
    inc = [repo, shim]

    def put(path, text):
        path = os.path.join(out, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
    for td, dialect, base, dbase in (
            (os.path.join(repo, "larq_compute_engine/mlir/ir/lce_ops.td"), "LarqDialect", "larq_compute_engine/mlir/ir/lce_ops", "larq_compute_engine/mlir/ir/lce_dialect"),
            (os.path.join(shim, "tensorflow/compiler/mlir/lite/ir/tfl_ops.td"), "TFL_Dialect", "verif/tfl_ops", None),
            (os.path.join(shim, "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.td"), "TF_Dialect", "verif/tf_ops", None)):
        rec = load(td, inc)
        h, s = gen_ops(rec, dialect)
        put(base + ".h.inc", h)
        put(base + ".cc.inc", s)
        if dbase:
            h, s = gen_dialect(rec, dialect)
            put(dbase + ".h.inc", h)
            put(dbase + ".cc.inc", s)
    for name, td in REWRITERS.items():
        put("larq_compute_engine/mlir/transforms/generated_%s.inc" % name, gen_rewriters(load(os.path.join(repo, "larq_compute_engine/mlir/transforms", td), inc)))


if __name__ == "__main__":
    import sys
    generate(*sys.argv[1:4])
