"""The CUDA kernel without a GPU: clang compiles the .cu file to PTX, which is translated to C here, instruction by
instruction (shifts clamp, prmt selects bytes, predicated instructions, vectors of registers in mov)."""
import os, re, subprocess

VP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    pass


def clang(repo, src, work):
    """PTX of a .cu file"""
    text = open(os.path.join(repo, src)).read()
    # nvcc takes a % that no digit follows literally (in inline assembly with operands, too)
    text = re.sub(r'"(?:[^"\\\n]|\\.)*"', lambda m: re.sub(r"%(?![0-9%])", "%%", m.group(0)), text)
    cu, out, inc = (os.path.join(work, x) for x in ("k.cu", "k.ptx", "inc"))
    os.makedirs(os.path.join(inc, "lib842"), exist_ok=True)
    open(cu, "w").write(text)
    open(os.path.join(inc, "lib842", "config.h"), "w").write("#pragma once\n")
    r = subprocess.run(["clang++", "-x", "cuda", "--cuda-device-only", "--cuda-gpu-arch=sm_70", "-nocudainc", "-nocudalib", "-fdeclspec",
                        "-D__restrict__=", "-w", "-include", os.path.join(VP, "harness/stub/cuda/vpcuda.h"), "-I", os.path.dirname(os.path.join(repo, src)),
                        "-I", inc, "-I", os.path.join(repo, "include"), "-O2", "-S", "-o", out, cu],
                       capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[-600:])
    return open(out).read()


UT = {"8": "uint8_t", "16": "uint16_t", "32": "uint32_t", "64": "uint64_t"}
ST = {k: v[1:] for k, v in UT.items()}


def ty(t):
    if t == "pred":
        return "int"
    if t[0] in "ub":
        return UT[t[1:]]
    if t[0] == "s":
        return ST[t[1:]]
    raise Unsupported("type " + t)


def name(r):
    return "v_" + re.sub(r"\W", "_", r.lstrip("%")) if r.startswith("%") else "s_" + re.sub(r"\W", "_", r)


SREG = {"%ctaid.x": "ctaid", "%ntid.x": "ntid", "%tid.x": "tid"}


def val(x, t=None):
    x = x.strip()
    if x in SREG:
        return SREG[x]
    if x.startswith("%"):
        return "(%s)%s" % (t, name(x)) if t else name(x)
    if re.fullmatch(r"-?(0[xX][0-9a-fA-F]+|\d+)U?", x):
        return "(%s)(%s)" % (t or "uint64_t", x.rstrip("U") + ("ull" if not x.startswith("-") else "ll"))
    if re.fullmatch(r"[A-Za-z_$][\w$]*", x):
        return "(uint64_t)" + name(x)
    raise Unsupported("operand " + x)


def addr(x):
    m = re.fullmatch(r"\[\s*([%\w$]+)\s*(?:\+\s*(-?\d+))?\s*\]", x.strip())
    if not m:
        raise Unsupported("address " + x)
    return "(%s + (int64_t)%s)" % (val(m.group(1), "uint64_t"), m.group(2) or 0)


CMP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "lo": "<", "ls": "<=", "hi": ">", "hs": ">="}
BIN = {"add": "+", "sub": "-", "and": "&", "or": "|", "xor": "^"}


def split(args):
    out, depth, cur = [], 0, ""
    for ch in args:
        depth += ch in "[{"
        depth -= ch in "]}"
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def instr(op, args):
    p = op.split(".")
    a = split(args)
    o, t = p[0], p[-1]
    if o == "ret":
        return "return;"
    if o == "bra":
        return "goto %s;" % name(a[0])
    if o == "ld":
        if "param" in p:
            return "%s = %s;" % (name(a[0]), name(re.fullmatch(r"\[(.*)\]", a[1]).group(1)))
        if not set(p[1:-1]) <= {"global", "const", "nc", "relaxed", "volatile"}:
            raise Unsupported(op)
        return "{ %s t; memcpy(&t, (void *)%s, sizeof(t)); %s = t; }" % (ty(t), addr(a[1]), name(a[0]))
    if o == "st":
        if not set(p[1:-1]) <= {"global", "volatile"}:
            raise Unsupported(op)
        return "{ %s t = %s; memcpy((void *)%s, &t, sizeof(t)); }" % (ty(t), val(a[1], ty(t)), addr(a[0]))
    if o == "mov":
        if a[1].startswith("{"):
            parts = split(a[1][1:-1])
            w = int(t[1:]) // len(parts)
            return "%s = %s;" % (name(a[0]), " | ".join("(uint64_t)%s << %d" % (val(x, UT[str(w)]), i * w) for i, x in enumerate(parts)))
        if a[0].startswith("{"):
            parts = split(a[0][1:-1])
            w = int(t[1:]) // len(parts)
            return "{ uint64_t t = %s; %s }" % (val(a[1], "uint64_t"), " ".join("%s = t >> %d;" % (name(x), i * w) for i, x in enumerate(parts)))
        return "%s = %s;" % (name(a[0]), val(a[1], ty(t)))
    if o == "prmt" and t == "b32":
        return "%s = vp_prmt(%s, %s, %s);" % (name(a[0]), val(a[1], "uint32_t"), val(a[2], "uint32_t"), val(a[3], "uint32_t"))
    if o in ("shl", "shr"):
        w = int(t[1:])
        n = val(a[2], "uint32_t")
        x = val(a[1], ty(t))
        if o == "shr" and t[0] == "s":
            return "%s = %s >> (%s > %d ? %d : %s);" % (name(a[0]), x, n, w - 1, w - 1, n)
        return "%s = %s >= %d ? 0 : (%s)(%s %s %s);" % (name(a[0]), n, w, ty(t), x, "<<" if o == "shl" else ">>", n)
    if o in BIN and len(p) == 2:
        return "%s = (%s)%s %s (%s)%s;" % (name(a[0]), "uint64_t", val(a[1], ty(t)), BIN[o], "uint64_t", val(a[2], ty(t)))
    if o in ("neg", "not"):
        return "%s = %s(uint64_t)%s;" % (name(a[0]), "-" if o == "neg" else "~", val(a[1], ty(t)))
    if o in ("mul", "mad") and p[1] in ("lo", "wide"):
        x = "(%s)%s * (%s)%s" % (("uint64_t", val(a[1], ty(t)), "uint64_t", val(a[2], ty(t))) if t[0] != "s" else
                                 ("int64_t", val(a[1], ty(t)), "uint64_t", val(a[2], ty(t))))
        return "%s = %s%s;" % (name(a[0]), x, " + %s" % val(a[3], "uint64_t") if o == "mad" else "")
    if o in ("min", "max"):
        x, y = val(a[1], ty(t)), val(a[2], ty(t))
        return "%s = %s %s %s ? %s : %s;" % (name(a[0]), x, "<" if o == "min" else ">", y, x, y)
    if o == "setp":
        tt = ty(t) if p[1] not in ("lo", "ls", "hi", "hs") else UT[t[1:]]
        if len(p) != 3:
            raise Unsupported(op)
        return "%s = %s %s %s;" % (name(a[0]), val(a[1], tt), CMP[p[1]], val(a[2], tt))
    if o == "selp":
        return "%s = %s ? %s : %s;" % (name(a[0]), name(a[3]), val(a[1], ty(t)), val(a[2], ty(t)))
    if o == "cvt" and len(p) == 3:
        return "%s = (%s)%s;" % (name(a[0]), ty(p[1]), val(a[1], ty(p[2])))
    if o == "cvta":
        return "%s = %s;" % (name(a[0]), val(a[1], "uint64_t"))
    raise Unsupported(op)


def to_c(ptx, symbol="cuda842_decompress"):
    out = ["#include <stdint.h>", "#include <string.h>",
           "static uint32_t vp_prmt(uint32_t a, uint32_t b, uint32_t s) { uint64_t v = (uint64_t)b << 32 | a; uint32_t r = 0;",
           "  for (int i = 0; i < 4; i++) { uint8_t x = v >> (s >> (4 * i) & 7) * 8; if (s >> (4 * i) & 8) x = (int8_t)x < 0 ? 255 : 0; r |= (uint32_t)x << 8 * i; }",
           "  return r; }"]
    text = re.sub(r"/\*.*?\*/", "", ptx, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    for m in re.finditer(r"^\s*(?:\.visible\s+)?\.(?:const|global)\s+(?:\.align\s+(\d+)\s+)?\.b(8|16|32|64)\s+([\w$]+)(?:\[(\d+)\])?\s*(?:=\s*(\{[^}]*\}|[^;]*))?;", text, re.M):
        al, w, n, cnt, init = m.groups()
        init = init or "0"
        out.append("static const %s %s[%s] __attribute__((aligned(%s))) = %s;" % (UT[w], name(n), cnt or 1, al or 8, init if init.startswith("{") else "{%s}" % init))
    m = re.search(r"\.entry\s+(\w*%s\w*)\s*\((.*?)\)([^{]*)\{(.*)\n\}" % symbol, text, re.S)
    if not m:
        raise Unsupported("no kernel " + symbol)
    params = re.findall(r"\.param\s+\.u64\s+(\w+)", m.group(2))
    if len(params) != 2:
        raise Unsupported("parameters of the kernel")
    if len(re.findall(r"\.entry|\.func", text)) != 1:
        raise Unsupported("further functions")
    out.append("void vp_kernel(uint64_t %s, uint64_t %s, uint32_t ctaid, uint32_t ntid, uint32_t tid) {" % tuple(name(x) for x in params))
    body = m.group(4)
    for stmt in re.findall(r"[{}](?=\s*\n)|[\w$]+:|(?:[^;{}:]|\{[^{}\n;]*\}|::)+;", body):
        s = stmt.strip()
        if s in "{}":
            out.append(s)
            continue
        if s.endswith(":"):
            out.append(name(s[:-1]) + ": ;")
            continue
        s = re.sub(r"\s+", " ", s[:-1]).strip()
        if s.startswith(".pragma"):
            continue
        r = re.fullmatch(r"\.reg \.(\w+) (.*)", s)
        if r:
            t = "int" if r.group(1) == "pred" else UT[r.group(1)[1:]]
            for x in split(r.group(2)):
                q = re.fullmatch(r"(%\w+)<(\d+)>", x)
                for y in ([q.group(1) + str(i) for i in range(int(q.group(2)))] if q else [x]):
                    out.append("%s %s = 0; (void)%s;" % (t, name(y), name(y)))
            continue
        r = re.fullmatch(r"(?:@(!?)(%\w+) )?([\w.]+)(?: (.*))?", s)
        if not r:
            raise Unsupported("statement " + s)
        neg, pred, op, args = r.groups()
        c = instr(op, args or "")
        if pred:
            c = "if (%s%s) { %s }" % ("!" if neg else "", name(pred), c)
        out.append(c)
    out.append("}")
    return "\n".join(out) + "\n"


def build(repo, work, src="src/cuda/842_decompress.cu"):
    """The driver with the translated kernel, or the reason why there is none"""
    os.makedirs(work, exist_ok=True)
    try:
        c = to_c(clang(repo, src, work))
    except (Unsupported, KeyError, IndexError, AttributeError, OSError, ValueError, subprocess.TimeoutExpired) as e:
        return None, "%s: %s" % (type(e).__name__, e)
    open(os.path.join(work, "k.c"), "w").write(c)
    exe = os.path.join(work, "cuda_driver")
    r = subprocess.run(["gcc", "-O1", "-g", "-fno-strict-aliasing", "-fwrapv", "-w", "-o", exe, os.path.join(work, "k.c"),
                        os.path.join(VP, "harness/cuda_driver.c")], capture_output=True, text=True)
    if r.returncode:
        return None, "gcc: " + r.stderr[-600:]
    return exe, None
