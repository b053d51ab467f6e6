// Models of library functions and the sym_* interface.
#define NAT(nm) natives[nm] = Native{nm, [](Engine & E, State & s, const CInst &ci, std::vector<V> &a, V *dst) -> NR
#define END }
static V eqBytes(const std::vector<V> &a, const std::vector<V> &b) {
    V r = cv(1, 1);
    for(size_t i = 0; i < a.size(); i++) {
        r = mkAnd(r, mkEq(a[i], b[i]));
        if(isFalse(r))
            return r;
    }
    return r;
}
// finish the current call in state q with result v (used for clones created by a native)
static void completeCall(State &q, const CInst &ci, const V &v) {
    Frame &f = q.th[q.cur].st.back();
    if(ci.nd)
        f.regs[ci.dst] = v;
    f.ip++;
}
static NR doAlloc(Engine &E, State &s, const V &size, uint8_t fill, V *dst) {
    V big = mkBin(Op::Ult, cv(64, E.opt.maxAlloc), size);
    if(!isFalse(big)) {
        std::shared_ptr<Model> m;
        Res r = E.mayBe(s, big, m);
        if(r == Res::Unknown) {
            E.unsupported(s, "solver timeout");
            return NR::Stop;
        }
        if(r == Res::Sat)
            E.report(s, *m, "alloc", "unbounded allocation");
        if(!E.assume(s, mkNot(big)))
            return NR::Stop;
    }
    uint64_t n;
    if(!E.bulk(s, size, n))
        return NR::Stop;
    uint32_t id = s.mem.alloc(n, OK::Heap, fill, "heap");
    dst[0] = cv(64, addrOf(id));
    return NR::Next;
}
static NR doFree(Engine &E, State &s, const V &p) {
    uint64_t a;
    if(!E.concretize(s, p, a))
        return NR::Stop;
    if(!a)
        return NR::Next;
    const Obj *o = s.mem.get(idOf(a));
    if(!o || o->kind != OK::Heap || offOf(a) != 0) {
        E.error(s, "memory", "free of an invalid pointer");
        return NR::Stop;
    }
    if(!o->alive) {
        E.error(s, "memory", "double free");
        return NR::Stop;
    }
    E.raceKill(s, idOf(a));
    if(E.dead)
        return NR::Stop;
    s.mem.kill(idOf(a));
    return NR::Next;
}
static bool mutexLock(Engine &E, State &s, uint64_t a, bool recursive, bool &blocked) {
    auto &m = s.mutexes[a];
    blocked = false;
    if(m.owner == s.cur) {
        if(recursive) {
            m.count++;
            return true;
        }
        E.error(s, "deadlock", "mutex locked twice by the same thread");
        return false;
    }
    if(m.owner != -1 || !m.readers.empty()) {
        blocked = true;
        E.block(s, 1, a);
        return false;
    }
    m.owner = s.cur;
    m.count = 1;
    E.acquire(s, a);
    return true;
}
#define ADDR(k, var)                     \
    uint64_t var;                        \
    if(!E.concretize(s, a[k], var))      \
        return NR::Stop;

static NR notify(Engine &E, State &s, const CInst &ci, uint64_t cvAddr, bool all) {
    std::vector<int> w;
    for(size_t i = 0; i < s.th.size(); i++)
        if(s.th[i].ts == TS::Blocked && s.th[i].wkind == 4 && s.th[i].waddr == cvAddr && s.th[i].phase == 1)
            w.push_back(i);
    if(all) {
        for(int i : w)
            s.th[i].phase = 2;
        return NR::Next;
    }
    for(size_t k = 1; k < w.size(); k++) {
        auto *q = E.fork(s);
        q->sched.push_back(2000 + w[k]);
        q->th[w[k]].phase = 2;
        completeCall(*q, ci, V{});
    }
    if(!w.empty())
        s.th[w[0]].phase = 2;
    return NR::Next;
}

static std::string hexOf(const std::vector<V> &v) {
    std::string r;
    char b[4];
    for(auto &x : v) {
        snprintf(b, 4, "%02x", (unsigned)x.c & 255);
        r += b;
    }
    return r;
}
void Engine::initNatives() {
    // ---- symbolic inputs
    NAT("sym_u64_") {
        std::string n;
        if(!E.readCStr(s, a[0], n))
            return NR::Stop;
        uint32_t i;
        V v = E.newSym(s, n, 64, i);
        s.recs.push_back({E.intern(n), 0, 64, {i}, 0});
        dst[0] = v;
        return NR::Next;
    END};
    NAT("sym_u32_") {
        std::string n;
        if(!E.readCStr(s, a[0], n))
            return NR::Stop;
        uint32_t i;
        V v = E.newSym(s, n, 32, i);
        s.recs.push_back({E.intern(n), 0, 32, {i}, 0});
        dst[0] = v;
        return NR::Next;
    END};
    NAT("sym_u8_") {
        std::string n;
        if(!E.readCStr(s, a[0], n))
            return NR::Stop;
        uint32_t i;
        V v = E.newSym(s, n, 8, i);
        s.recs.push_back({E.intern(n), 0, 8, {i}, 0});
        dst[0] = v;
        return NR::Next;
    END};
    NAT("sym_bool_") {
        std::string n;
        if(!E.readCStr(s, a[0], n))
            return NR::Stop;
        uint32_t i;
        V v = E.newSym(s, n, 1, i);
        s.recs.push_back({E.intern(n), 0, 1, {i}, 0});
        dst[0] = ci.w == 1 ? v : mkZExt(v, ci.w);
        return NR::Next;
    END};
    NAT("sym_range_") { // (lo, hi, name)
        std::string n;
        if(!E.readCStr(s, a[2], n))
            return NR::Stop;
        uint32_t i;
        V v = E.newSym(s, n, 64, i);
        s.recs.push_back({E.intern(n), 0, 64, {i}, 0});
        auto m = std::make_shared<Model>(*s.model);
        if(m->size() <= i)
            m->resize(i + 1, 0);
        (*m)[i] = a[0].conc() ? a[0].c : evalNode(a[0].n, *s.model).c;
        s.model = m;
        E.addPc(s, mkBin(Op::Ule, a[0], v));
        E.addPc(s, mkBin(Op::Ule, v, a[1]));
        dst[0] = v;
        return NR::Next;
    END};
    NAT("sym_bytes") { // (p, n, name)
        std::string n;
        if(!E.readCStr(s, a[2], n))
            return NR::Stop;
        ADDR(1, len);
        std::vector<V> b(len);
        Rec r{E.intern(n), 1, 8, {}, 0};
        for(uint64_t k = 0; k < len; k++) {
            uint32_t i;
            b[k] = E.newSym(s, n, 8, i);
            r.syms.push_back(i);
        }
        if(!E.writeBytes(s, a[0], b))
            return NR::Stop;
        s.recs.push_back(r);
        return NR::Next;
    END};
    NAT("sym_choice_") { // (n, name): forks over 0..n-1
        std::string n;
        if(!E.readCStr(s, a[1], n))
            return NR::Stop;
        ADDR(0, cnt);
        if(cnt == 0) {
            E.die("sym_choice(0)");
        }
        if(E.replaying) {
            uint64_t k = E.nextReplay(n);
            s.recs.push_back({E.intern(n), 2, 64, {}, k});
            dst[0] = cv(64, k);
            return NR::Next;
        }
        for(uint64_t k = cnt - 1; k >= 1; k--) {
            auto *q = E.fork(s);
            q->recs.push_back({E.intern(n), 2, 64, {}, k});
            completeCall(*q, ci, cv(64, k));
        }
        s.recs.push_back({E.intern(n), 2, 64, {}, 0});
        dst[0] = cv(64, 0);
        return NR::Next;
    END};
    NAT("sym_concretize") {
        ADDR(0, v);
        dst[0] = cv(a[0].w, v);
        return NR::Next;
    END};
    NAT("sym_assume_") {
        V c = mkNot(mkEq(a[0], Engine::zeroV(a[0].w)));
        E.assume(s, c);
        return NR::Next;
    END};
    NAT("sym_assert_") {
        V c = mkNot(mkEq(a[0], Engine::zeroV(a[0].w)));
        E.asserts++;
        if(isTrue(c))
            return NR::Next;
        std::string msg;
        if(!E.readCStr(s, a[1], msg))
            return NR::Stop;
        if(!c.conc())
            E.assertQueries++;
        std::shared_ptr<Model> m;
        Res r = E.mayBe(s, mkNot(c), m);
        if(r == Res::Unknown) {
            E.unsupported(s, "solver timeout");
            return NR::Stop;
        }
        if(r == Res::Sat) {
            E.report(s, *m, "assert", msg);
            if(!E.assume(s, c))
                return NR::Stop;
        }
        return NR::Next;
    END};
    NAT("sym_cover") {
        std::string n;
        if(!E.readCStr(s, a[0], n))
            return NR::Stop;
        E.covers.insert(n);
        return NR::Next;
    END};
    NAT("sym_note") {
        std::string n;
        if(!E.readCStr(s, a[0], n))
            return NR::Stop;
        s.notes.push_back(n);
        return NR::Next;
    END};
    NAT("sym_print") {
        std::string n;
        if(!E.readCStr(s, a[0], n))
            return NR::Stop;
        fprintf(stderr, "[print] %s = %s\n", n.c_str(), a[1].conc() ? std::to_string(a[1].c).c_str() : exprStr(a[1].n, 8).c_str());
        return NR::Next;
    END};
    NAT("sym_end") { // end the path successfully
        E.finishPath(s, true);
        return NR::Stop;
    END};
    NAT("vf_strtod") {
        std::string t;
        if(!E.readCStr(s, a[0], t))
            return NR::Stop;
        double d = strtod(t.c_str(), nullptr);
        uint64_t c;
        memcpy(&c, &d, 8);
        dst[0] = cv(64, c);
        return NR::Next;
    END};
    // From now on the program may stop itself (failed assertion, uncaught exception) exactly where c holds.
    NAT("sym_may_refuse") {
        s.refuse = mkNot(mkEq(a[0], Engine::zeroV(a[0].w)));
        return NR::Next;
    END};
    // Is the value decided on this path?
    NAT("sym_is_symbolic") {
        dst[0] = cv(ci.w, a[0].conc() ? 0 : 1);
        return NR::Next;
    END};
    // injective uninterpreted hash: (tag, in, len, out32)
    NAT("sym_hash") {
        ADDR(0, tag);
        ADDR(2, len);
        std::vector<V> in;
        if(!E.readBytes(s, a[1], len, in))
            return NR::Stop;
        bool allc = true;
        for(auto &b : in)
            allc &= b.conc();
        for(auto &h : s.hashes) {
            if(h.tag != tag || h.in.size() != in.size())
                continue;
            V e = eqBytes(h.in, in);
            bool d = E.decide(s, e);
            if(E.dead)
                return NR::Stop;
            if(d) {
                auto out = h.out;
                if(!E.writeBytes(s, a[3], out))
                    return NR::Stop;
                s.recs.push_back({E.intern("hash"), 3, 0, {}, 0, hexOf(out)});
                return NR::Next;
            }
        }
        std::vector<uint8_t> pre;
        if(allc) {
            if(tag != 1)
                for(int i = 0; i < 4; i++)
                    pre.push_back(tag >> (8 * i));
            for(auto &b : in)
                pre.push_back(b.c);
        } else {
            std::string t = "symbolic preimage " + std::to_string(tag) + "/" + std::to_string(s.hashes.size());
            pre.assign(t.begin(), t.end());
        }
        uint8_t dg[32];
        sha256(pre, dg);
        HashEnt h;
        h.tag = tag;
        h.in = in;
        for(int i = 0; i < 32; i++)
            h.out.push_back(cv(8, dg[i]));
        if(!E.writeBytes(s, a[3], h.out))
            return NR::Stop;
        s.recs.push_back({E.intern("hash"), 3, 0, {}, 0, hexOf(h.out)});
        s.hashes.push_back(std::move(h));
        return NR::Next;
    END};
    // uninterpreted function: (tag, in, len, width bits<=64, name) -> fresh value, equal for equal inputs
    NAT("sym_uf") {
        std::string n;
        if(!E.readCStr(s, a[4], n))
            return NR::Stop;
        ADDR(0, tag);
        ADDR(2, len);
        ADDR(3, w);
        std::vector<V> in;
        if(!E.readBytes(s, a[1], len, in))
            return NR::Stop;
        uint32_t i;
        V fresh = E.newSym(s, n, w, i);
        s.recs.push_back({E.intern(n), 0, (uint32_t)w, {i}, 0});
        V r = fresh;
        for(size_t k = s.hashes.size(); k-- > 0;) {
            auto &h = s.hashes[k];
            if(h.tag != (tag | 0x80000000u) || h.in.size() != in.size())
                continue;
            r = mkIte(eqBytes(h.in, in), h.out[0], r);
        }
        HashEnt h;
        h.tag = tag | 0x80000000u;
        h.in = in;
        h.out = {r};
        s.hashes.push_back(std::move(h));
        dst[0] = mkZExt(r, 64);
        return NR::Next;
    END};
    // ---- memory
    for(auto nm : {"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"})
        NAT(nm) { return doAlloc(E, s, a[0], 0xCD, dst);
        END};
    for(auto nm : {"aligned_alloc"})
        NAT(nm) { return doAlloc(E, s, a[1], 0xCD, dst);
        END};
    NAT("calloc") { return doAlloc(E, s, mkBin(Op::Mul, a[0], a[1]), 0, dst);
    END};
    for(auto nm : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"})
        NAT(nm) { return doFree(E, s, a[0]);
        END};
    NAT("realloc") {
        ADDR(0, p);
        ADDR(1, n);
        uint64_t old = 0;
        if(p) {
            const Obj *o = s.mem.get(idOf(p));
            if(!o || !o->alive) {
                E.error(s, "memory", "realloc of invalid pointer");
                return NR::Stop;
            }
            old = o->size;
        }
        V d[8];
        NR r = doAlloc(E, s, cv(64, n), 0xCD, d);
        if(r != NR::Next)
            return r;
        if(p) {
            E.doMemcpy(s, d[0], cv(64, p), std::min(old, n));
            s.mem.kill(idOf(p));
        }
        dst[0] = d[0];
        return NR::Next;
    END};
    for(auto nm : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"})
        NAT(nm) {
            ADDR(2, n);
            if(!E.doMemcpy(s, a[0], a[1], n))
                return NR::Stop;
            dst[0] = a[0];
            return NR::Next;
        END};
    NAT("memset") {
        if(!E.doMemsetV(s, a[0], mkExtract(a[1], 0, 8), a[2]))
            return NR::Stop;
        dst[0] = a[0];
        return NR::Next;
    END};
    for(auto nm : {"memcmp", "bcmp"})
        NAT(nm) {
            ADDR(2, n);
            std::vector<V> x, y;
            if(!E.readBytes(s, a[0], n, x) || !E.readBytes(s, a[1], n, y))
                return NR::Stop;
            if(ci.callee && ci.callee->getName() == "bcmp") {
                dst[0] = mkIte(eqBytes(x, y), cv(32, 0), cv(32, 1));
                return NR::Next;
            }
            V r = cv(32, 0);
            for(size_t i = n; i-- > 0;)
                r = mkIte(mkEq(x[i], y[i]), r, mkIte(mkBin(Op::Ult, x[i], y[i]), cv(32, ~0ULL), cv(32, 1)));
            dst[0] = r;
            return NR::Next;
        END};
    NAT("strlen") {
        ADDR(0, p);
        for(uint64_t i = 0;; i++) {
            V b;
            if(!E.loadV(s, cv(64, p + i), 8, b) || E.dead)
                return NR::Stop;
            bool z = E.decide(s, mkEq(b, cv(8, 0)));
            if(E.dead)
                return NR::Stop;
            if(z) {
                dst[0] = cv(64, i);
                return NR::Next;
            }
        }
    END};
    NAT("memchr") {
        ADDR(0, p);
        ADDR(2, n);
        V c = mkExtract(a[1], 0, 8);
        if(!isConst(c) && n > 1) { // a symbolic character in a fixed text: one question instead of one per character
            std::vector<V> x;
            if(!E.readBytes(s, a[0], n, x))
                return NR::Stop;
            bool fixed = true;
            for(auto &b : x)
                fixed = fixed && isConst(b);
            if(fixed) {
                V any = cv(1, 0), r = cv(64, 0);
                for(size_t i = n; i-- > 0;) {
                    V e = mkEq(x[i], c);
                    any = mkOr(any, e);
                    r = mkIte(e, cv(64, p + i), r);
                }
                bool z = E.decide(s, any);
                if(E.dead)
                    return NR::Stop;
                dst[0] = z ? r : cv(64, 0);
                return NR::Next;
            }
        }
        for(uint64_t i = 0; i < n; i++) {
            V b;
            if(!E.loadV(s, cv(64, p + i), 8, b) || E.dead)
                return NR::Stop;
            bool z = E.decide(s, mkEq(b, c));
            if(E.dead)
                return NR::Stop;
            if(z) {
                dst[0] = cv(64, p + i);
                return NR::Next;
            }
        }
        dst[0] = cv(64, 0);
        return NR::Next;
    END};
    for(auto nm : {"strcmp", "strncmp"})
        NAT(nm) {
            ADDR(0, p);
            ADDR(1, q);
            uint64_t lim = ~0ULL;
            if(a.size() > 2) {
                ADDR(2, l);
                lim = l;
            }
            for(uint64_t i = 0; i < lim; i++) {
                V b, c;
                if(!E.loadV(s, cv(64, p + i), 8, b) || E.dead || !E.loadV(s, cv(64, q + i), 8, c) || E.dead)
                    return NR::Stop;
                bool e = E.decide(s, mkEq(b, c));
                if(E.dead)
                    return NR::Stop;
                if(!e) {
                    dst[0] = mkBin(Op::Sub, mkZExt(b, 32), mkZExt(c, 32));
                    return NR::Next;
                }
                bool z = E.decide(s, mkEq(b, cv(8, 0)));
                if(E.dead)
                    return NR::Stop;
                if(z)
                    break;
            }
            dst[0] = cv(32, 0);
            return NR::Next;
        END};
    // ---- termination
    NAT("abort") {
        E.refuse(s, "abort called");
        return NR::Stop;
    END};
    NAT("__cxa_pure_virtual") {
        E.error(s, "abort", "pure virtual call");
        return NR::Stop;
    END};
    NAT("_ZSt9terminatev") {
        E.refuse(s, "std::terminate");
        return NR::Stop;
    END};
    NAT("__assert_fail") {
        std::string m;
        if(!E.readCStr(s, a[0], m))
            return NR::Stop;
        E.refuse(s, "assertion failed: " + m);
        return NR::Stop;
    END};
    NAT("exit") {
        if(E.opt.exitOk) {
            E.finishPath(s, true);
            return NR::Stop;
        }
        E.error(s, "abort", "exit called");
        return NR::Stop;
    END};
    NAT("_exit") {
        if(E.opt.exitOk) {
            E.finishPath(s, true);
            return NR::Stop;
        }
        E.error(s, "abort", "exit called");
        return NR::Stop;
    END};
    for(auto nm : {"__cxa_atexit", "atexit", "printf", "puts", "putchar", "fflush", "fprintf", "fputs", "fputc", "vprintf", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_mutex_destroy", "pthread_rwlock_destroy", "pthread_rwlock_init", "pthread_cond_init", "pthread_cond_destroy", "pthread_detach", "_ZSt21ios_base_library_initv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "signal"})
        NAT(nm) {
            dst[0] = cv(32, 0);
            return NR::Next;
        END};
    // ---- locks and threads
    NAT("pthread_mutex_init") {
        dst[0] = cv(32, 0);
        return NR::Next;
    END};
    NAT("pthread_mutex_lock") {
        ADDR(0, m);
        E.preempt(s);
        V k;
        E.atomicAccess = true;
        bool okk = E.loadV(s, cv(64, m + 16), 32, k);
        E.atomicAccess = false;
        if(!okk)
            return NR::Stop;
        bool bl;
        if(!mutexLock(E, s, m, k.conc() && k.c == 1, bl))
            return NR::Stop;
        dst[0] = cv(32, 0);
        return NR::Next;
    END};
    NAT("pthread_mutex_trylock") {
        ADDR(0, m);
        E.preempt(s);
        auto &x = s.mutexes[m];
        V k;
        E.atomicAccess = true;
        bool okk = E.loadV(s, cv(64, m + 16), 32, k);
        E.atomicAccess = false;
        if(!okk)
            return NR::Stop;
        if(x.owner == s.cur && k.conc() && k.c == 1) {
            x.count++;
            dst[0] = cv(32, 0);
        } else if(x.owner != -1 || !x.readers.empty())
            dst[0] = cv(32, 16);
        else {
            x.owner = s.cur;
            x.count = 1;
            E.acquire(s, m);
            dst[0] = cv(32, 0);
        }
        return NR::Next;
    END};
    NAT("pthread_mutex_unlock") {
        ADDR(0, m);
        auto &x = s.mutexes[m];
        if(x.owner != s.cur) {
            E.error(s, "lock", "unlock of a mutex not held by this thread");
            return NR::Stop;
        }
        if(--x.count == 0) {
            E.release(s, m);
            x.owner = -1;
        }
        dst[0] = cv(32, 0);
        return NR::Next;
    END};
    NAT("pthread_rwlock_rdlock") {
        ADDR(0, m);
        E.preempt(s);
        auto &x = s.mutexes[m];
        if(x.owner == s.cur) {
            E.error(s, "deadlock", "rwlock locked twice by the same thread");
            return NR::Stop;
        }
        if(x.owner != -1) {
            E.block(s, 2, m);
            return NR::Stop;
        }
        x.readers.push_back(s.cur);
            E.acquire(s, m);
        dst[0] = cv(32, 0);
        return NR::Next;
    END};
    NAT("pthread_rwlock_wrlock") {
        ADDR(0, m);
        E.preempt(s);
        auto &x = s.mutexes[m];
        if(x.owner == s.cur || std::find(x.readers.begin(), x.readers.end(), s.cur) != x.readers.end()) {
            E.error(s, "deadlock", "rwlock locked twice by the same thread");
            return NR::Stop;
        }
        if(x.owner != -1 || !x.readers.empty()) {
            E.block(s, 3, m);
            return NR::Stop;
        }
        x.owner = s.cur;
        x.count = 1;
        E.acquire(s, m);
        E.acquire(s, m + 1);
        dst[0] = cv(32, 0);
        return NR::Next;
    END};
    NAT("pthread_rwlock_tryrdlock") {
        ADDR(0, m);
        E.preempt(s);
        auto &x = s.mutexes[m];
        if(x.owner != -1)
            dst[0] = cv(32, 16);
        else {
            x.readers.push_back(s.cur);
            E.acquire(s, m);
            dst[0] = cv(32, 0);
        }
        return NR::Next;
    END};
    NAT("pthread_rwlock_trywrlock") {
        ADDR(0, m);
        E.preempt(s);
        auto &x = s.mutexes[m];
        if(x.owner != -1 || !x.readers.empty())
            dst[0] = cv(32, 16);
        else {
            x.owner = s.cur;
            x.count = 1;
            E.acquire(s, m);
            E.acquire(s, m + 1);
            dst[0] = cv(32, 0);
        }
        return NR::Next;
    END};
    NAT("pthread_rwlock_unlock") {
        ADDR(0, m);
        auto &x = s.mutexes[m];
        auto it = std::find(x.readers.begin(), x.readers.end(), s.cur);
        if(x.owner == s.cur) {
            E.release(s, m);
            x.owner = -1;
        } else if(it != x.readers.end()) {
            E.release(s, m + 1);
            x.readers.erase(it);
        } else {
            E.error(s, "lock", "unlock of a rwlock not held by this thread");
            return NR::Stop;
        }
        dst[0] = cv(32, 0);
        return NR::Next;
    END};
    NAT("sym_thread_create") { // (fn, arg) -> id
        ADDR(0, fn);
        auto it = E.fnById.find(idOf(fn));
        if(it == E.fnById.end())
            E.die("thread function");
        int id = s.th.size();
        s.th.emplace_back();
        E.threadsMax = std::max<uint64_t>(E.threadsMax, s.th.size());
        std::vector<V> args{a[1]};
        E.pushFrame(s, s.th[id], E.compile(it->second), args, nullptr);
        E.raceStart(s, id);
        dst[0] = cv(64, id);
        return NR::Next;
    END};
    NAT("sym_thread_join") {
        ADDR(0, id);
        if(s.th[id].ts != TS::Done) {
            s.th[s.cur].joinId = id;
            E.block(s, 5, 0);
            return NR::Stop;
        }
        E.raceJoin(s, id);
        return NR::Next;
    END};
    NAT("sym_thread_self") {
        dst[0] = cv(64, s.cur);
        return NR::Next;
    END};
    NAT("sched_yield") { // another thread that can run does so first
        Thread &t = s.th[s.cur];
        if(t.phase == 0 && E.others(s)) {
            t.phase = 1;
            E.block(s, 7, s.switches);
            return NR::Stop;
        }
        t.phase = 0;
        t.noPreempt = false;
        if(dst)
            dst[0] = cv(32, 0);
        return NR::Next;
    END};
    // A sleep: another thread goes first, or this one goes on at once, which counts as a preemption.
    for(auto nm : {"sym_yield", "nanosleep"})
    NAT(nm) {
        Thread &t = s.th[s.cur];
        if(t.phase == 0 && E.others(s)) {
            bool on = false;
            if(s.preempts < E.opt.preemptBound) {
                if(E.replaying) {
                    auto ch = E.nextSched(s);
                    s.sched.push_back(ch);
                    on = ch == 3000;
                } else {
                    auto *q = E.fork(s);
                    q->sched.push_back(3000);
                    q->preempts++;
                    q->th[q->cur].phase = 1;
                    s.sched.push_back(3001);
                }
            }
            if(on) {
                s.preempts++;
            } else {
                t.phase = 1;
                E.block(s, 7, s.switches);
                return NR::Stop;
            }
        }
        t.phase = 0;
        t.noPreempt = false;
        if(dst)
            dst[0] = cv(32, 0);
        return NR::Next;
    END};
    NAT("sym_cond_wait") { // (cv, mutex, timed) -> 1 if timed out
        ADDR(0, c);
        ADDR(1, m);
        ADDR(2, timed);
        Thread &t = s.th[s.cur];
        if(t.phase == 0) {
            auto &x = s.mutexes[m];
            if(x.owner != s.cur) {
                E.error(s, "lock", "condition wait without holding the mutex");
                return NR::Stop;
            }
            E.release(s, m);
            x.owner = -1;
            x.count = 0;
            t.phase = 1;
            t.wmutex = m;
            t.canTimeout = timed;
            E.block(s, 4, c);
            return NR::Stop;
        }
        // scheduled again: the mutex is free
        auto &x = s.mutexes[m];
        bool to = t.phase == 1;
        if(x.owner != -1)
            E.die("cond wait resume");
        x.owner = s.cur;
        x.count = 1;
        E.acquire(s, m);
        t.phase = 0;
        t.noPreempt = false;
        dst[0] = cv(32, to);
        return NR::Next;
    END};
    NAT("sym_futex_wait") { // (addr, val): blocks while *addr == val
        ADDR(0, p);
        ADDR(1, val);
        E.preempt(s);
        V v;
        E.atomicAccess = true;
        bool okv = E.loadV(s, cv(64, p), 32, v);
        E.atomicAccess = false;
        if(!okv || E.dead)
            return NR::Stop;
        E.acquire(s, p);
        if(v.conc() && v.c == (val & 0xffffffffu)) {
            s.th[s.cur].joinId = val & 0xffffffffu;
            E.block(s, 6, p);
            return NR::Stop;
        }
        return NR::Next;
    END};
    NAT("sym_cond_notify") { // (cv, all)
        ADDR(0, c);
        ADDR(1, all);
        E.preempt(s);
        return notify(E, s, ci, c, all);
    END};
}
