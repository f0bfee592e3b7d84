"""The C++ peer: a driver process around the generated full codec, built with
AddressSanitizer and UBSan and stepped one command at a time over pipes, so the
simulator decides every step. Its operator new counts requests and can be told to
fail the n-th one."""
import json
import os
import subprocess

from . import pynode
from .schema import SCALARS, sizers

CXX = os.environ.get("VERIF_CXX", "g++")
FLAGS = ["-std=c++11", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize-recover=enum",
         "-fno-omit-frame-pointer", "-w"]

HEADERS = r'''
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <new>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <stdint.h>
#include <sanitizer/asan_interface.h>
'''

PRELUDE = r'''
#include "pre.hpp"
#include "proto.ppf.hpp"

using namespace prophy::generated;
using prophy::optional;

static bool acct_on = false;
static unsigned long long acct_total = 0, acct_max = 0, acct_count = 0, acct_fail_at = 0;
static unsigned long long acct_refuse = 64ull << 20;

static void* counted(size_t n)
{
    if (acct_on)
    {
        ++acct_count;
        acct_total += n;
        if (n > acct_max) acct_max = n;
        if (acct_fail_at && acct_count == acct_fail_at) throw std::bad_alloc();
        if (n > acct_refuse) throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

struct Acct
{
    Acct(unsigned long long fail_at) { acct_total = acct_max = acct_count = 0; acct_fail_at = fail_at; acct_on = true; }
    ~Acct() { acct_on = false; acct_fail_at = 0; }
};

// a buffer of exactly n usable bytes at an aligned address, poisoned around
struct Guarded
{
    unsigned char* raw;
    unsigned char* data;
    size_t n;
    Guarded(size_t n_) : n(n_)
    {
        raw = static_cast<unsigned char*>(std::malloc(n + 256));
        data = raw + 128;
        std::memset(raw, 0, n + 256);
        ASAN_POISON_MEMORY_REGION(raw, 128);
        ASAN_POISON_MEMORY_REGION(data + n, 128);
    }
    ~Guarded()
    {
        ASAN_UNPOISON_MEMORY_REGION(raw, n + 256);
        std::free(raw);
    }
};

struct R
{
    unsigned long long s;
    R(unsigned long long seed) : s(seed * 2862933555777941757ull + 3037000493ull) { next(); next(); }
    unsigned long long next()
    {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 2685821657736338717ull;
    }
    unsigned below(unsigned n) { return unsigned((next() >> 33) % n); }
    template <class T> void scalar(T& x)
    {
        unsigned long long v = below(3) ? next() : below(4);
        std::memcpy(&x, &v, sizeof(T));
    }
    void scalar(float& x) { x = float(int(below(2001)) - 1000) / 4; }
    void scalar(double& x) { x = double(int(below(2001)) - 1000) / 8; }
};

static std::string out;
static void lit(const char* s) { out += s; }
static void put(unsigned long long v) { char b[32]; std::snprintf(b, sizeof b, "%llu", v); out += b; }
template <class T> void put_scalar(const T& x) { char b[32]; std::snprintf(b, sizeof b, "%lld", (long long)x); out += b; }
static void put_scalar(const uint64_t& x) { put(x); }
static void put_scalar(const float& x) { uint32_t v; std::memcpy(&v, &x, 4); put(v); }
static void put_scalar(const double& x) { uint64_t v; std::memcpy(&v, &x, 8); put(v); }
static void put_hex(const unsigned char* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    for (size_t i = 0; i < n; ++i) { out += d[p[i] >> 4]; out += d[p[i] & 15]; }
}

enum { SLOTS = 4 };

struct Base
{
    virtual ~Base() {}
    virtual void fresh(int slot) = 0;
    virtual int decode(int slot, char endian, const unsigned char* p, size_t n, unsigned long long fail_at) = 0;
    virtual void encode(int slot, char endian, unsigned long long fail_at) = 0;
    virtual void mutate(int slot, unsigned long long seed) = 0;
    virtual void overfill(int slot) = 0;
    virtual void dump(int slot) = 0;
    virtual void copy(int dst, int src) = 0;
    virtual void clone(int dst, int src) = 0;
    virtual size_t sizeof_() = 0;
    virtual long encoded() = 0;
};

template <class T> void mutate(T& x, R& r);
template <class T> void overfill(T& x);
template <class T> void dump(const T& x);

template <class T> struct Ops : Base
{
    T* slots[SLOTS];
    Ops() { for (int i = 0; i < SLOTS; ++i) slots[i] = new T(); }
    ~Ops() { for (int i = 0; i < SLOTS; ++i) delete slots[i]; }
    void fresh(int slot) { delete slots[slot]; slots[slot] = 0; slots[slot] = new T(); }
    int decode(int slot, char endian, const unsigned char* p, size_t n, unsigned long long fail_at)
    {
        Guarded g(n);
        if (n) std::memcpy(g.data, p, n);
        Acct a(fail_at);
        if (endian == '<') return slots[slot]->template decode<prophy::little>(g.data, n);
        if (endian == '>') return slots[slot]->template decode<prophy::big>(g.data, n);
        return slots[slot]->decode(g.data, n);
    }
    void encode(int slot, char endian, unsigned long long fail_at)
    {
        const T& x = *slots[slot];
        size_t size = x.get_byte_size();
        std::vector<uint8_t> v;
        {
            Acct a(fail_at);
            if (endian == '<') v = x.template encode<prophy::little>();
            else if (endian == '>') v = x.template encode<prophy::big>();
            else v = x.encode();
        }
        Guarded g(size);
        size_t written;
        if (endian == '<') written = x.template encode<prophy::little>(static_cast<void*>(g.data));
        else if (endian == '>') written = x.template encode<prophy::big>(static_cast<void*>(g.data));
        else written = x.encode(static_cast<void*>(g.data));
        out += "E "; put(size); out += ' '; put(v.size()); out += ' '; put(written); out += ' ';
        put_hex(v.data(), v.size());
        out += ' ';
        out += (v.size() == size && (size == 0 || std::memcmp(v.data(), g.data, size) == 0)) ? "same" : "differ";
    }
    void mutate(int slot, unsigned long long seed) { R r(seed); ::mutate(*slots[slot], r); }
    void overfill(int slot) { ::overfill(*slots[slot]); }
    void dump(int slot) { ::dump(*slots[slot]); }
    void copy(int dst, int src) { *slots[dst] = *slots[src]; }
    void clone(int dst, int src) { T* p = new T(*slots[src]); delete slots[dst]; slots[dst] = p; }
    size_t sizeof_() { return sizeof(T); }
    long encoded() { return long(T::encoded_byte_size); }
};
'''

MAIN = r'''
static int hexval(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line))
    {
        out.clear();
        char cmd = 0, endian = 0;
        int type = 0, slot = 0, used = 0;
        unsigned long long arg = 0;
        std::sscanf(line.c_str(), "%c %d %d %c %llu %n", &cmd, &type, &slot, &endian, &arg, &used);
        try
        {
            Base& b = *table[type];
            if (cmd == 'D')
            {
                std::vector<unsigned char> data;
                for (size_t i = used; i + 1 < line.size(); i += 2)
                    data.push_back(hexval(line[i]) * 16 + hexval(line[i + 1]));
                int r = b.decode(slot, endian, data.data(), data.size(), arg);
                out += "D "; put(r); out += ' '; put(acct_total); out += ' '; put(acct_max); out += ' '; put(acct_count);
            }
            else if (cmd == 'E') b.encode(slot, endian, arg);
            else if (cmd == 'M') { b.mutate(slot, arg); out += "M"; }
            else if (cmd == 'O') { b.overfill(slot); out += "O"; }
            else if (cmd == 'J') { out += "J "; b.dump(slot); }
            else if (cmd == 'F') { b.fresh(slot); out += "F"; }
            else if (cmd == 'C') { b.copy(slot, int(arg)); out += "C"; }
            else if (cmd == 'K') { b.clone(slot, int(arg)); out += "K"; }
            else if (cmd == 'S')
            {
                out += "S";
                for (size_t i = 0; i < sizeof(table) / sizeof(table[0]); ++i)
                { out += ' '; put(table[i]->sizeof_()); char s[32]; std::snprintf(s, sizeof s, " %ld", table[i]->encoded()); out += s; }
            }
            else out += "? bad command";
        }
        catch (const std::bad_alloc&) { acct_on = false; out = "X bad_alloc "; put(acct_total); out += ' '; put(acct_max); }
        catch (const std::length_error&) { out = "X length_error "; put(acct_total); out += ' '; put(acct_max); }
        catch (const std::exception& e) { out = "X exception "; put(acct_total); out += ' '; put(acct_max); }
        out += '\n';
        std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
    }
    for (size_t i = 0; i < sizeof(table) / sizeof(table[0]); ++i) delete table[i];
    return 0;
}
'''

CPP_SCALAR = {"r32": "float", "r64": "double"}
for _name, (_size, _signed) in SCALARS.items():
    CPP_SCALAR[_name] = "%sint%d_t" % ("" if _signed else "u", _size * 8)


def overfill_lines(types, d):
    """Statements that put more elements in arrays than their one-byte sizer counts."""
    if d["k"] != "struct":
        return []
    sizer = {m["n"]: types.resolve(m["t"]) for m in d["m"]}
    return ["x.%s.resize(300);" % m["n"] for m in d["m"]
            if m["a"] and m["a"][0] == "ext" and sizer[m["a"][1]] in ("u8", "i8")]


def driver_source(types):
    """Driver text for every struct and union of the schema."""
    fwd, bodies = [], []

    def mut_item(t, expr):
        cat = types.category(t)
        if cat in ("int", "float"):
            return "r.scalar(%s);" % expr
        d = types.decl(t)
        if cat == "enum":
            names = [e[0] for e in d["m"]]
            return "{ static const %s e_[] = {%s}; %s = e_[r.below(%d)]; }" % (
                d["n"], ", ".join(names), expr, len(names))
        return "mutate_%s(%s, r);" % (d["n"], expr)

    def dump_item(t, expr):
        cat = types.category(t)
        if cat in ("int", "float"):
            return "put_scalar(%s);" % expr
        if cat == "enum":
            return "put(uint32_t(%s));" % expr
        return "dump_%s(%s);" % (types.decl(t)["n"], expr)

    for d in types.composites():
        n = d["n"]
        fwd.append("void mutate_%s(%s& x, R& r); void dump_%s(const %s& x);" % (n, n, n, n))
        mut, dmp, over = [], [], overfill_lines(types, d)
        if d["k"] == "union":
            mut.append("switch (r.below(%d)) {" % len(d["m"]))
            for i, m in enumerate(d["m"]):
                mut.append("case %d: x.discriminator = %s::discriminator_%s; %s break;" % (
                    i, n, m["n"], mut_item(m["t"], "x." + m["n"])))
            mut.append("}")
            dmp.append('lit("[\\""); switch (x.discriminator) {')
            for m in d["m"]:
                dmp.append('case %s::discriminator_%s: lit("%s\\","); %s break;' % (
                    n, m["n"], m["n"], dump_item(m["t"], "x." + m["n"])))
            dmp.append('default: lit("?\\","); put(uint32_t(x.discriminator)); } lit("]");')
        else:
            counters = sizers(d)
            dmp.append('lit("{");')
            first = True
            for m in d["m"]:
                if m["n"] in counters:
                    continue
                x = "x." + m["n"]
                dmp.append('lit("%s\\"%s\\":");' % ("" if first else ",", m["n"]))
                first = False
                elem = "u8" if m["t"] == "bytes" else m["t"]
                if m["a"]:
                    kind = m["a"][0]
                    if kind in ("lim", "elim"):
                        mut.append("if (r.below(2)) %s.resize(r.below(%d));" % (x, m["a"][1] + 4))
                    elif kind != "fix":
                        deep = types.kind(m["t"]) if m["t"] != "bytes" else 0
                        mut.append("if (r.below(2)) %s.resize(r.below(%d));" % (x, 4 if deep else 8))
                    mut.append("for (size_t i = 0; i < %s.size(); ++i) if (r.below(2)) { %s }" % (
                        x, mut_item(elem, x + "[i]")))
                    dmp.append('lit("["); for (size_t i = 0; i < %s.size(); ++i) { if (i) lit(","); %s } lit("]");'
                               % (x, dump_item(elem, x + "[i]")))
                elif m["o"]:
                    ct = CPP_SCALAR.get(types.resolve(elem), types.resolve(elem))
                    mut.append("{ unsigned k = r.below(4); if (k == 0) %s.reset(); else if (k < 3) "
                               "{ if (!%s) %s = %s(); %s } }" % (x, x, x, ct, mut_item(elem, "(*%s)" % x)))
                    dmp.append('if (%s) { %s } else lit("null");' % (x, dump_item(elem, "(*%s)" % x)))
                else:
                    mut.append("if (r.below(3)) { %s }" % mut_item(elem, x))
                    dmp.append(dump_item(elem, x))
            dmp.append('lit("}");')
        bodies.append("void mutate_%s(%s& x, R& r)\n{\n    (void)x; (void)r;\n    %s\n}\nvoid dump_%s(const %s& x)\n{\n    %s\n}\n"
                      "template <> void mutate<%s>(%s& x, R& r) { mutate_%s(x, r); }\n"
                      "template <> void dump<%s>(const %s& x) { dump_%s(x); }\n"
                      "template <> void overfill<%s>(%s& x) { (void)x; %s }\n"
                      % (n, n, "\n    ".join(mut), n, n, "\n    ".join(dmp), n, n, n, n, n, n, n, n, " ".join(over)))
    table = "static Base* table[] = {%s};\n" % ", ".join("new Ops<%s>()" % d["n"] for d in types.composites())
    return PRELUDE + "\n".join(fwd) + "\n" + "\n".join(bodies) + table + MAIN


class BuildError(Exception):
    pass


def precompile(root):
    """Precompiled standard headers for the builds of one worker. Only the
    standard library goes in: the code under test is compiled by every build."""
    path = os.path.join(root, "pch")
    os.makedirs(path, exist_ok=True)
    header = os.path.join(path, "pre.hpp")
    with open(header, "w") as f:
        f.write(HEADERS)
    done = subprocess.run([CXX] + FLAGS + ["-x", "c++-header", header, "-o", header + ".gch"],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if done.returncode:
        raise RuntimeError("cannot precompile headers: " + done.stdout.decode(errors="replace")[:2000])
    return path


def build(types, workdir, pch):
    """Compile driver + generated codec found in workdir. Returns binary path."""
    src = os.path.join(workdir, "driver.cpp")
    with open(src, "w") as f:
        f.write(driver_source(types))
        f.write('\n#include "proto.ppf.cpp"\n')
    binary = os.path.join(workdir, "driver")
    cmd = [CXX] + FLAGS + ["-I" + pch, "-I" + os.path.join(pynode.REPO, "prophy_cpp/include"), "-I" + workdir,
                           src, "-o", binary]
    done = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=workdir)
    if done.returncode:
        raise BuildError(done.stdout.decode(errors="replace")[:4000])
    return binary


class Died(Exception):
    """The driver process died inside a command: a sanitizer report or signal."""

    def __init__(self, command, report):
        super().__init__(command)
        self.command = command
        self.report = report


class Hung(Exception):
    pass


class Driver(object):
    def __init__(self, binary, types):
        self.types = types
        self.index = {d["n"]: i for i, d in enumerate(types.composites())}
        self.errlog = binary + ".err"
        self.binary = binary
        self.proc = None
        self.sizes = None
        self.start()

    def start(self):
        env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:"
                               "detect_container_overflow=1:max_allocation_size_mb=1024",
               "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0", "PATH": os.environ.get("PATH", "")}
        self._err = open(self.errlog, "wb")
        self.proc = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self._err, env=env)
        fields = [int(x) for x in self.cmd("S 0 0 < 0").split()[1:]]
        names = list(self.index)
        self.sizes = {n: (fields[2 * i], fields[2 * i + 1]) for i, n in enumerate(names)}

    def close(self):
        if self.proc:
            try:
                self.proc.stdin.close()
            except OSError:
                pass
            try:
                self.proc.wait(timeout=20)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
            self.proc.stdout.close()
            self._err.close()
            self.proc = None

    def enum_reports(self):
        """UBSan reports that did not end the process: loads of enum values
        outside the range of the enumeration."""
        self._err.flush()
        with open(self.errlog, "rb") as f:
            lines = f.read().decode(errors="replace").splitlines()
        return [line for line in lines if "runtime error:" in line and "not a valid value for type" in line]

    def restart(self):
        self.close()
        self.start()

    def cmd(self, line):
        try:
            self.proc.stdin.write(line.encode() + b"\n")
            self.proc.stdin.flush()
            reply = self._readline()
        except (BrokenPipeError, OSError):
            reply = b""
        if not reply.endswith(b"\n"):
            self.proc.wait()
            self._err.flush()
            with open(self.errlog, "rb") as f:
                report = f.read().decode(errors="replace")
            raise Died(line, report)
        return reply.decode().rstrip("\n")

    def _readline(self):
        import select
        fd = self.proc.stdout.fileno()
        ready, _, _ = select.select([fd], [], [], 60)
        if not ready:
            self.proc.kill()
            self.proc.wait()
            raise Hung()
        return self.proc.stdout.readline()

    # -- typed commands
    def fresh(self, t, slot):
        self.cmd("F %d %d < 0" % (self.index[t], slot))

    def decode(self, t, slot, endian, data, fail_at=0):
        """-> ('ok'|'no'|exception name, total bytes requested, largest request, requests)"""
        r = self.cmd("D %d %d %s %d %s" % (self.index[t], slot, endian, fail_at, data.hex())).split()
        if r[0] == "X":
            return r[1], int(r[2]), int(r[3]), 0
        return ("ok" if r[1] == "1" else "no"), int(r[2]), int(r[3]), int(r[4])

    def encode(self, t, slot, endian, fail_at=0):
        """-> dict or exception name"""
        r = self.cmd("E %d %d %s %d" % (self.index[t], slot, endian, fail_at)).split(" ")
        if r[0] == "X":
            return r[1]
        return {"size": int(r[1]), "vector": int(r[2]), "written": int(r[3]), "bytes": bytes.fromhex(r[4]),
                "same": r[5] == "same"}

    def mutate(self, t, slot, seed):
        self.cmd("M %d %d < %d" % (self.index[t], slot, seed))

    def overfill(self, t, slot):
        self.cmd("O %d %d < 0" % (self.index[t], slot))

    def copy(self, t, dst, src):
        self.cmd("C %d %d < %d" % (self.index[t], dst, src))

    def clone(self, t, dst, src):
        self.cmd("K %d %d < %d" % (self.index[t], dst, src))

    def dump(self, t, slot):
        """Reference value held by the C++ object, as far as it is sent: a limited
        array holds any number of elements and sends those within its limit."""
        raw = json.loads(self.cmd("J %d %d < 0" % (self.index[t], slot))[2:])
        return self._fix(t, raw)

    def _fix(self, t, raw):
        types = self.types
        d = types.decl(t)
        if d is None or d["k"] == "enum":
            return raw
        if d["k"] == "union":
            if raw[0] == "?":
                return raw
            arm = next(m for m in d["m"] if m["n"] == raw[0])
            return [raw[0], self._fix(arm["t"], raw[1])]
        out = {}
        for m in d["m"]:
            if m["n"] not in raw:
                continue
            v = raw[m["n"]]
            if m["a"]:
                if m["a"][0] in ("lim", "elim"):
                    v = v[:m["a"][1]]
                out[m["n"]] = bytes(v) if m["t"] == "bytes" else [self._fix(m["t"], x) for x in v]
            else:
                out[m["n"]] = None if v is None else self._fix(m["t"], v)
        return out
