// Copy-on-write object memory.  An address is (object id << 32) + BIAS + offset, so every pointer names its object and
// any out-of-bounds or use-after-free access is detected.
#pragma once
#include "expr.h"
#include <string>
#include <vector>

constexpr uint64_t BIAS = 0x40000000ULL;
constexpr uint32_t PS = 1024;
enum class OK : uint8_t { Global, Stack, Heap, Func };

struct Page {
    uint32_t rc = 1;
    uint32_t n;
    uint8_t *d;
    const Node **sym = nullptr;
    uint32_t nsym = 0;
    Page(uint32_t n_, uint8_t fill) : n(n_), d(new uint8_t[n_]) { memset(d, fill, n); }
    Page(const Page &o) : n(o.n), d(new uint8_t[o.n]), nsym(o.nsym) {
        memcpy(d, o.d, n);
        if(o.sym && nsym) {
            sym = new const Node *[n];
            memcpy(sym, o.sym, n * sizeof(*sym));
        } else
            nsym = 0;
    }
    ~Page() {
        delete[] d;
        delete[] sym;
    }
};
struct Obj {
    uint32_t rc = 1;
    OK kind;
    bool alive = true, ro = false;
    uint8_t fill;
    uint64_t size;
    const char *name;
    std::vector<Page *> pages;
    Obj(uint64_t sz, OK k, uint8_t f, const char *nm) : kind(k), fill(f), size(sz), name(nm) {
        pages.resize((sz + PS - 1) / PS, nullptr);
    }
    Obj(const Obj &o) : kind(o.kind), alive(o.alive), ro(o.ro), fill(o.fill), size(o.size), name(o.name), pages(o.pages) {
        for(auto *p : pages)
            if(p)
                p->rc++;
    }
    static void drop(Page *p) {
        if(p && --p->rc == 0)
            delete p;
    }
    ~Obj() {
        for(auto *p : pages)
            drop(p);
    }
    Page *wr(uint64_t i) { // writable page
        Page *&p = pages[i];
        if(!p) {
            uint64_t left = size - i * PS;
            p = new Page(left < PS ? left : PS, fill);
        } else if(p->rc > 1) {
            Page *q = new Page(*p);
            p->rc--;
            p = q;
        }
        return p;
    }
    const Node *symAt(uint64_t off) const {
        Page *p = pages[off / PS];
        return p && p->nsym ? p->sym[off % PS] : nullptr;
    }
    uint8_t byteAt(uint64_t off) const {
        Page *p = pages[off / PS];
        return p ? p->d[off % PS] : fill;
    }
    void setConc(uint64_t off, uint8_t v) {
        Page *p = wr(off / PS);
        p->d[off % PS] = v;
        if(p->nsym && p->sym[off % PS]) {
            p->sym[off % PS] = nullptr;
            p->nsym--;
        }
    }
    void setSym(uint64_t off, const Node *n) {
        Page *p = wr(off / PS);
        if(!p->sym) {
            p->sym = new const Node *[p->n];
            memset(p->sym, 0, p->n * sizeof(*p->sym));
        } else if(!p->nsym)
            memset(p->sym, 0, p->n * sizeof(*p->sym));
        if(!p->sym[off % PS])
            p->nsym++;
        p->sym[off % PS] = n;
    }
    V byteV(uint64_t off) const {
        const Node *n = symAt(off);
        if(n)
            return fromNode(n);
        return cv(8, byteAt(off));
    }
    void setByteV(uint64_t off, const V &v) {
        if(v.conc())
            setConc(off, v.c);
        else
            setSym(off, v.n);
    }
    void fillRange(uint64_t off, uint64_t len, uint8_t v) {
        if(off == 0 && len == size && len > PS) { // the whole object
            for(auto *&p : pages) {
                drop(p);
                p = nullptr;
            }
            fill = v;
            return;
        }
        while(len) {
            uint64_t pi = off / PS, po = off % PS;
            uint64_t k = std::min<uint64_t>(len, PS - po);
            uint64_t pn = std::min<uint64_t>(PS, size - pi * PS);
            if(po == 0 && k == pn && v == fill) {
                drop(pages[pi]);
                pages[pi] = nullptr;
            } else {
                Page *p = wr(pi);
                memset(p->d + po, v, k);
                if(p->nsym)
                    for(uint64_t i = 0; i < k; i++)
                        if(p->sym[po + i]) {
                            p->sym[po + i] = nullptr;
                            p->nsym--;
                        }
            }
            off += k;
            len -= k;
        }
    }
    bool anySym(uint64_t off, uint64_t len) const {
        while(len) {
            uint64_t pi = off / PS, po = off % PS;
            uint64_t k = std::min<uint64_t>(len, PS - po);
            Page *p = pages[pi];
            if(p && p->nsym)
                for(uint64_t i = 0; i < k; i++)
                    if(p->sym[po + i])
                        return true;
            off += k;
            len -= k;
        }
        return false;
    }
    void readConc(uint64_t off, uint64_t len, uint8_t *out) const {
        while(len) {
            uint64_t pi = off / PS, po = off % PS;
            uint64_t k = std::min<uint64_t>(len, PS - po);
            Page *p = pages[pi];
            if(p)
                memcpy(out, p->d + po, k);
            else
                memset(out, fill, k);
            off += k;
            len -= k;
            out += k;
        }
    }
    void writeConc(uint64_t off, uint64_t len, const uint8_t *in) {
        while(len) {
            uint64_t pi = off / PS, po = off % PS;
            uint64_t k = std::min<uint64_t>(len, PS - po);
            Page *p = wr(pi);
            memcpy(p->d + po, in, k);
            if(p->nsym)
                for(uint64_t i = 0; i < k; i++)
                    if(p->sym[po + i]) {
                        p->sym[po + i] = nullptr;
                        p->nsym--;
                    }
            off += k;
            len -= k;
            in += k;
        }
    }
};
constexpr uint32_t CH = 128;
struct Chunk {
    uint32_t rc = 1;
    Obj *e[CH] = {};
    Chunk() = default;
    Chunk(const Chunk &o) {
        for(uint32_t i = 0; i < CH; i++) {
            e[i] = o.e[i];
            if(e[i])
                e[i]->rc++;
        }
    }
    ~Chunk() {
        for(auto *o : e)
            if(o && --o->rc == 0)
                delete o;
    }
};
struct Mem {
    std::vector<Chunk *> ch;
    uint32_t next = 1;
    Mem() = default;
    Mem(const Mem &o) : ch(o.ch), next(o.next) {
        for(auto *c : ch)
            if(c)
                c->rc++;
    }
    Mem &operator=(const Mem &) = delete;
    ~Mem() {
        for(auto *c : ch)
            if(c && --c->rc == 0)
                delete c;
    }
    const Obj *get(uint32_t id) const {
        uint32_t k = id / CH;
        if(k >= ch.size() || !ch[k])
            return nullptr;
        return ch[k]->e[id % CH];
    }
    Chunk *wch(uint32_t k) {
        Chunk *&c = ch[k];
        if(!c)
            c = new Chunk;
        else if(c->rc > 1) {
            Chunk *q = new Chunk(*c);
            c->rc--;
            c = q;
        }
        return c;
    }
    Obj *wr(uint32_t id) {
        Chunk *c = wch(id / CH);
        Obj *&o = c->e[id % CH];
        if(o->rc > 1) {
            Obj *q = new Obj(*o);
            o->rc--;
            o = q;
        }
        return o;
    }
    uint32_t alloc(uint64_t size, OK kind, uint8_t fill, const char *nm) {
        uint32_t id = next++;
        if(id / CH >= ch.size())
            ch.resize(id / CH + 1, nullptr);
        wch(id / CH)->e[id % CH] = new Obj(size, kind, fill, nm);
        return id;
    }
    void kill(uint32_t id) {
        Obj *o = wr(id);
        o->alive = false;
        for(auto *p : o->pages)
            Obj::drop(p);
        o->pages.clear();
        o->pages.shrink_to_fit();
    }
};
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) + BIAS; }
static inline uint32_t idOf(uint64_t a) { return a >> 32; }
static inline int64_t offOf(uint64_t a) { return (int64_t)(a & 0xffffffffULL) - (int64_t)BIAS; }
