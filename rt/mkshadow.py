"""Number-token abstraction of RapidJSON's decimal text layer (a dependency, not the code under test).

make(dir) writes dir/rapidjson: the installed headers, with
  * Writer<StringBuffer>::Write{Int,Uint,Int64,Uint64,Double} emitting a fixed-width token instead of decimal digits:
      \\x02 N <8 bytes two's complement> <1 if the value exceeds INT64_MAX>      for integers
      \\x02 D <8 bytes IEEE>                                                     for doubles
  * GenericReader::ParseNumber recognising such a token and raising exactly the event RapidJSON raises for the decimal
    text of that value (Int / Uint / Int64 / Uint64 by sign and magnitude; Double for doubles).
Everything else (structure, strings, DOM) is RapidJSON as installed.  Used where the value of a number matters and the
digit-by-digit text would put 64-bit division chains or Grisu into the queries.  The native replay always uses the real
RapidJSON, and the *_digits jobs keep the real decimal text."""
import os, re, shutil
SRC = '/usr/include/rapidjson'
def make(d):
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d); shutil.copytree(SRC, d + '/rapidjson')
    p = d + '/rapidjson/writer.h'; s = open(p).read()
    tok = '''
namespace shadow { inline void num(StringBuffer* os, uint64_t v, bool big) { char* b = os->Push(11); b[0] = 2; b[1] = 'N'; for (int k = 0; k < 8; k++) b[2 + k] = (char)(v >> (8 * k)); b[10] = (char)big; }
inline void dbl(StringBuffer* os, double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); char* b = os->Push(10); b[0] = 2; b[1] = 'D'; for (int k = 0; k < 8; k++) b[2 + k] = (char)(v >> (8 * k)); } }
'''
    a = s.index('// Full specialization for StringStream'); s = s[:a] + tok + s[a:]
    def body(name, arg, new):
        nonlocal s
        m = re.search(r'inline bool Writer<StringBuffer>::%s\(%s\) \{.*?\n\}' % (name, re.escape(arg)), s, re.S)
        assert m, name
        s = s[:m.start()] + 'inline bool Writer<StringBuffer>::%s(%s) { %s return true; }' % (name, arg, new) + s[m.end():]
    body('WriteInt', 'int i', 'shadow::num(os_, (uint64_t)(int64_t)i, false);')
    body('WriteUint', 'unsigned u', 'shadow::num(os_, u, false);')
    body('WriteInt64', 'int64_t i64', 'shadow::num(os_, (uint64_t)i64, false);')
    body('WriteUint64', 'uint64_t u', 'shadow::num(os_, u, (u >> 63) != 0);')
    body('WriteDouble', 'double d', 'if (internal::Double(d).IsNanOrInf()) return false; shadow::dbl(os_, d);')
    open(p, 'w').write(s)
    p = d + '/rapidjson/reader.h'; s = open(p).read()
    h = 'void ParseNumber(InputStream& is, Handler& handler) {\n'; assert s.count(h) == 1
    s = s.replace(h, h + '''        if (is.Peek() == 2) { size_t startOff = is.Tell(); is.Take(); char kind = (char)is.Take(); uint64_t v = 0; for (int k = 0; k < 8; k++) v |= (uint64_t)(unsigned char)is.Take() << (8 * k); bool ok;
            if (kind == 'D') { double dv; __builtin_memcpy(&dv, &v, 8); ok = handler.Double(dv); }
            else { bool big = is.Take() != 0; int64_t sv = (int64_t)v;
                if (big) ok = handler.Uint64(v);
                else if (sv < 0) { if (sv >= -2147483648LL) ok = handler.Int((int)sv); else ok = handler.Int64(sv); }
                else if (v <= 4294967295ULL) ok = handler.Uint((unsigned)v); else ok = handler.Uint64(v); }
            if (!ok) RAPIDJSON_PARSE_ERROR(kParseErrorTermination, startOff);
            return; }
''')
    open(p, 'w').write(s)
