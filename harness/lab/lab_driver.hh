// The driver: episodes of run / crash / recover cycles.
static std::vector<S> make_keys(rng& r) {
    std::set<S> ks;
    int n = 2 + r(r.p(1, 4) ? 60 : 12), fam = r(7);
    for (int tries = 0; (int) ks.size() < n && tries < 1000; ++tries) {
        S k; char b[64];
        switch (fam) {
        case 0: snprintf(b, sizeof(b), "k%d", (int) r(100)); k = b; break;
        case 1: snprintf(b, sizeof(b), "%llu", (unsigned long long) r(10000000000ull)); k = b; break;
        case 2: k = S(8 * (1 + r(3)), 'p'); for (int i = r(4); i > 0; --i) k += (char) ('a' + r(3)); break;     // one slice
        case 3: for (int i = r(20); i > 0; --i) k += (char) (r.p(1, 3) ? 0 : r.p(1, 2) ? 255 : r(256)); break;
        case 4: for (int i = r(10); i > 0; --i) k += (char) ('a' + r(2)); break;
        case 5: k = S(1 + r(8), (char) r(2)); if (r.p(1, 2)) k += (char) r(3); break;
        default: snprintf(b, sizeof(b), "%08d", (int) r(1000)); k = b; if (r.p(1, 2)) k += S(r(200), 'x'); break;
        }
        if (r.p(1, 40)) k = "";
        if (k.size() > 255) k.resize(255);
        ks.insert(k);
    }
    std::vector<S> v(ks.begin(), ks.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r(i)]);
    return v;
}
static S PROP;
static S replay_dir = "/tmp";
static FILE* outf;
static bool want_ckp, damage_mode;

static void pick_noise(rng& r) {
    cfg.noise = 0;
    if (r.p(1, 3)) return;
    if (seen_guards.empty() || C.episodes % 16 == 0) {
        seen_guards.clear();
        for (uint32_t i = 1; i < MAXGUARD; ++i) if (sh->guards[i]) seen_guards.push_back(i);
    }
    if (seen_guards.empty()) return;
    cfg.noise = 1 + r(4);
    for (int i = 0; i < cfg.noise; ++i) cfg.hot[i] = seen_guards[r(seen_guards.size())];
}
static void pick_timing(rng& r) {
    static const int naps[] = { 300, 1000, 3000 };
    cfg.nap_us = naps[r(3)];
    cfg.epoch_us = r.p(1, 3) ? 300 : r.p(1, 2) ? 1500 : 4000;
    for (int i = 0; i < MAXLOG; ++i) cfg.sync_us[i] = r.p(1, 3) ? 0 : r(3000);
    cfg.slow_log = r.p(1, 2) ? r(cfg.L) : -1;
    cfg.ckp_us = 500 + r(8000); cfg.ckpsync_us = r.p(1, 2) ? r(3000) : 0;
    cfg.duration_ms = 5 + r(60);
    cfg.think_us = r.p(1, 3) ? 0 : r(400);
    cfg.quiet_ms = r.p(2, 3) ? 1 + r(40) : 0;
    cfg.nops = r.p(1, 5) ? 3 + r(30) : r.p(1, 3) ? 2000 : 50 + r(400);
    cfg.late_start = r.p(1, 2);
    cfg.buflen = r.p(1, 3) ? 600 + r(3000) : r.p(1, 4) ? 1 << 16 : 0;
    if (cfg.bigvalues && cfg.buflen) cfg.buflen += 4 * cfg.bigvalues + 1000;
    static const int mixes[][OP_NTYPES] = {{6, 1, 2, 1}, {10, 1, 1, 0}, {3, 3, 3, 1}, {8, 0, 4, 0}, {12, 1, 0, 0}, {2, 6, 2, 0}};
    memcpy(cfg.mixw, mixes[r(6)], sizeof(cfg.mixw));
}
static S describe() {
    std::ostringstream o;
    o << "logs " << cfg.L << " clients " << cfg.M << " dirs " << cfg.ndirs << " checkpointers " << cfg.nck << (cfg.ckp ? " (on)" : " (off)") << " buffer " << cfg.buflen
      << " nap " << cfg.nap_us << " epoch " << cfg.epoch_us << " sync";
    for (int i = 0; i < cfg.L; ++i) o << " " << cfg.sync_us[i];
    o << " slow " << cfg.slow_log << " duration " << cfg.duration_ms << " quiet " << cfg.quiet_ms << " ops " << cfg.nops << " keys " << cfg.keys.size()
      << (cfg.own_keys ? " own-keys" : "") << " noise " << cfg.noise;
    return o.str();
}
static S hexdump(const S& s, size_t lim) {
    std::vector<lrec> rs; std::ostringstream o;
    size_t p = 0;
    while (p + 8 <= s.size() && o.tellp() < (long) lim) {
        uint32_t cmd, size; memcpy(&cmd, &s[p], 4); memcpy(&size, &s[p + 4], 4);
        o << "    @" << p << " ";
        char c[5] = {0}; memcpy(c, &cmd, 4); for (char& x : c) if (x && (x < 32 || x > 126)) x = '?';
        o << c << " size " << size;
        if (size < 8 || p + size > s.size()) { o << " BAD\n"; break; }
        uint64_t v; if (size >= 16) { memcpy(&v, &s[p + 8], 8); o << " " << v; }
        if (cmd == logcmd_modify && size >= 28) { uint64_t pv; uint32_t kl; memcpy(&pv, &s[p + 16], 8); memcpy(&kl, &s[p + 24], 4); o << " prev " << pv << " key " << show(s.substr(p + 28, std::min(kl, size - 28))); }
        else if ((cmd == logcmd_put || cmd == logcmd_replace || cmd == logcmd_remove) && size >= 20) { uint32_t kl; memcpy(&kl, &s[p + 16], 4); o << " key " << show(s.substr(p + 20, std::min(kl, size - 20))); }
        o << "\n";
        p += size;
    }
    if (p < s.size()) o << "    ... (" << s.size() - p << " more bytes)\n";
    return o.str();
}
static S show_image(const image_t& im) {
    std::ostringstream o;
    for (auto& f : im) {
        o << "  " << f.first << " (" << f.second.size() << " bytes)\n";
        if (f.first.find("kvd-log") != S::npos) o << hexdump(f.second, 6000);
        else if (f.first.find("ckp-gen") != S::npos) o << "    " << f.second << "\n";
    }
    return o.str();
}
struct trouble { S kind, msg; };
static void note_hash(uint64_t h) { if (C.hashes.insert(h).second) C.distinct++; }

// recover `img`; fills state; on failure throws
static void recover_image(const image_t& img, state_t& st, std::map<S, uint64_t>& ts, journal* jn, const S& what) {
    materialise(img);
    C.recoveries++;
    S e = run_child(child_recover, 40);
    if (!e.empty()) throw trouble{"recovery failed", what + ": " + e + "\nimage:\n" + show_image(img)};
    if (sh->stage != 3) throw trouble{"resources", ""};
    S err;
    if (!parse_dump(0, st, ts, err)) throw trouble{"contents", what + ": " + err};
    if (jn) jn->capture(img);
}
static S diff_state(const state_t& a, const state_t& b) {
    std::ostringstream o;
    for (auto& k : a) {
        auto it = b.find(k.first);
        if (it == b.end()) o << "  " << show(k.first) << ": " << show(k.second) << " / no row\n";
        else if (it->second != k.second) o << "  " << show(k.first) << ": " << show(k.second) << " / " << show(it->second) << "\n";
    }
    for (auto& k : b) if (!a.count(k.first)) o << "  " << show(k.first) << ": no row / " << show(k.second) << "\n";
    return o.str();
}
static uint64_t image_hash(const image_t& im, size_t lost) {
    uint64_t h = lost;
    for (auto& f : im) {
        std::vector<lrec> rs; parse_log(f.second, rs);
        uint64_t e0 = 0;
        h = mix(h, f.first.size());
        for (auto& x : rs) { if (!e0) e0 = x.epoch; h = mix(h, x.cmd + (x.epoch - e0) * 7); }
        h = mix(h, f.second.size());
    }
    return h;
}

static void episode(uint64_t seed) {
    rng r(seed);
    C.episodes++;
    cfg = config();
    cfg.seed = seed;
    cfg.L = 1 + r(MAXLOG); cfg.M = 1 + r(MAXCLIENT);
    if (r.p(2, 3)) { cfg.L = 2 + r(2); cfg.M = 2 + r(3); }
    cfg.ndirs = 1 + r(2);
    cfg.nck = 1 + r(4);
    cfg.keys = make_keys(r);
    cfg.own_keys = damage_mode ? r.p(1, 2) : r.p(1, 10);
    if (cfg.own_keys && (int) cfg.keys.size() < cfg.L * 2) cfg.own_keys = false;
    cfg.bigvalues = r.p(1, 5) ? 3000 : 0;
    image_t img;
    state_t S0; std::map<S, uint64_t> ts0;
    int ncycles = 1 + r(4);
    S trail;
    for (int cyc = 0; cyc < ncycles; ++cyc) {
        cfg.cycle = cyc + 1;
        cfg.seed = mix(seed, cyc + 1);
        cfg.ckp = want_ckp ? r.p(7, 8) : PROP == "C13" || PROP == "C16" || PROP == "C14" ? r.p(1, 4) : false;
        pick_timing(r);
        pick_noise(r);
        cfg.seed = mix(seed, 77 + cyc);
        S where = "episode " + std::to_string(seed) + " cycle " + std::to_string(cyc + 1) + " [" + describe() + "]";
        // ---- run
        materialise(img);
        C.cycles++;
        S e = run_child(child_run, 60);
        if (!e.empty()) {
            S m = where + ": " + e + "\nimage at start:\n" + show_image(img);
            throw trouble{sh->stage == 0 ? "recovery failed" : "run failed", m};
        }
        if (sh->stage != 3) { C.empties++; return; }
        journal jn; jn.capture(img);
        uint64_t recovered_seq = sh->recovered_seq, t_stop = sh->t_stop;
        state_t d0, d1; std::map<S, uint64_t> dts0, dts1; S err;
        if (!parse_dump(0, d0, dts0, err) || !parse_dump(1, d1, dts1, err)) throw trouble{"contents", where + ": " + err};
        if (d0 != S0) throw trouble{"not repeatable", where + ": recovering the same files a second time gave different contents (first / second):\n" + diff_state(S0, d0) + "image:\n" + show_image(img)};
        if (cyc) C.again++;
        history h;
        S he = h.build(S0, dts0);
        auto complain = [&](const S& kind, const S& m, const image_t& im) {
            std::ostringstream o;
            o << where << "\n" << m << "\nrecovered from:\n" << show_image(im) << "started from:\n" << show_image(img);
            std::ostringstream ops;
            auto all = h.all;
            std::sort(all.begin(), all.end(), [](const op& a, const op& b) { return a.inv < b.inv; });
            size_t n = 0;
            for (auto& x : all) { if (n++ > 1200) break; ops << "  " << show(x) << "\n"; }
            o << "updates of this cycle:\n" << ops.str();
            throw trouble{kind, o.str()};
        };
        if (!he.empty()) complain("versions", he, img);
        C.updates += h.all.size();
        for (int c = 0; c < cfg.M; ++c) C.ops += sh->nops[c];
        // the live table agrees with the model
        {
            state_t want;
            for (size_t k = 0; k < cfg.keys.size(); ++k) if (h.states[k].back().first) want[cfg.keys[k]] = h.states[k].back().second;
            for (auto& kv : S0) if (std::find(cfg.keys.begin(), cfg.keys.end(), kv.first) == cfg.keys.end()) want[kv.first] = kv.second;
            if (want != d1) complain("live", "the live table differs from the updates replayed by version (model / table):\n" + diff_state(want, d1), img);
        }
        for (auto& x : jn.j) if (x.type == J_RENAME && strstr(x.name2, "ckp-gen")) C.ckp_commits++;
        // ---- crash points
        size_t first = 0;
        while (first < jn.j.size() && jn.j[first].seq < recovered_seq) ++first;
        bool have_next = false; image_t next_img; state_t nextS; std::map<S, uint64_t> nextts;
        int nimg = 4 + r(6);
        uint64_t cut_total = 0;
        for (int q = 0; q < nimg; ++q) {
            size_t upto;
            int how;
            // positions: mostly after recovery; around file operations; the very end; during recovery
            uint64_t z = r(12);
            if (z == 0) upto = jn.j.size();
            else if (z <= 2 && first > 0) upto = r(first + 1);
            else {
                upto = first + r(jn.j.size() - first + 1);
                if (r.p(1, 2)) while (upto < jn.j.size() && upto > 0 && jn.j[upto - 1].type == J_NAP) ++upto;
            }
            how = r(3);
            if (r.p(1, 2)) how = 2;
            bool tail_damage = (damage_mode && r.p(2, 3)) || r.p(1, 12);
            if (tail_damage) how = 3 + r(2);
            image_t im; cutinfo ci;
            build_image(jn, upto, how, r, im, ci, 0);
            uint64_t t = upto < jn.j.size() ? jn.j[upto].seq : ~(uint64_t) 0;
            uint64_t dur = durable_bound(h, jn, upto, recovered_seq, cfg.L);
            bool during_recovery = upto < first;
            int ignore_log = -1;
            S damage = ci.desc;
            // ---- a log file that is missing, empty or has no whole record: as if its log had logged nothing
            if (damage_mode && !during_recovery && cyc == 0 && cfg.own_keys && cfg.L > 1 && r.p(1, 2)) {
                ignore_log = r(cfg.L);
                S name = "l" + std::to_string(ignore_log % cfg.ndirs) + "/kvd-log-" + std::to_string(ignore_log);
                int k = r(4);
                if (k == 0) im.erase(name);
                else im[name] = k == 1 ? S() : k == 2 ? im[name].substr(0, r(16)) : junk(r, r(3), 1 + r(100));
                damage += " " + name + (k == 0 ? " missing" : k == 1 ? " empty" : k == 2 ? " without a whole record" : " junk");
                for (auto f = im.begin(); f != im.end();) if (f->first.find("kvd-ckp-gen") != S::npos) f = im.erase(f); else ++f;
                C.damaged++;
            } else
            // ---- more damage: cut log files at any byte (only bytes of this cycle, or anything in the first one)
            if (damage_mode && !during_recovery && r.p(2, 3)) {
                int which = r(cfg.L);
                S name = "l" + std::to_string(which % cfg.ndirs) + "/kvd-log-" + std::to_string(which);
                auto it = im.find(name);
                if (it != im.end() && it->second.size()) {
                    // bytes of this file when recovery had finished
                    image_t at_start; cutinfo ci2; rng r2(1);
                    build_image(jn, first, 1, r2, at_start, ci2, 0);
                    size_t floor = at_start[name].size();
                    if (it->second.size() > floor) {
                        size_t cut = floor + r(it->second.size() - floor);
                        if (r.p(1, 6)) cut = floor;
                        // the first journalled write this removes bytes of
                        size_t pos = floor; int ino = -1; uint64_t wseq = 0; size_t windex = 0;
                        std::map<S, int> names;
                        for (size_t i = 0; i < upto && i < jn.j.size(); ++i) {
                            auto& x = jn.j[i];
                            if (x.type == J_OPEN || x.type == J_CREATE) names[x.name] = x.file;
                            if (x.type == J_RENAME) { names[x.name2] = x.file; names.erase(x.name); }
                        }
                        ino = names[name];
                        for (size_t i = first; i < upto && i < jn.j.size(); ++i) {
                            auto& x = jn.j[i];
                            if (x.type == J_WRITE && x.file == ino) {
                                if (pos + x.len > cut) { wseq = x.seq; windex = i; break; }
                                pos += x.len;
                            }
                        }
                        int k = r(4);
                        if (k) cut = record_floor(it->second, cut);
                        it->second.resize(cut);
                        if (k) it->second += junk(r, k - 1, r(200));
                        // nothing is promised about what was flushed at or after that write
                        if (wseq) dur = std::min(dur, durable_bound(h, jn, windex, recovered_seq, cfg.L));
                        else dur = 0;
                        C.damaged++;
                        damage += " " + name + " cut at " + std::to_string(cut) + (k ? " + junk" : "");
                        // a checkpoint may rest on the missing part
                        for (auto f = im.begin(); f != im.end();) if (f->first.find("kvd-ckp-gen") != S::npos && wseq) f = S0.empty() || true ? im.erase(f) : ++f; else ++f;
                        if (!S0.empty()) {
                            // the checkpoint recovered from at the start of this cycle must stay
                            for (auto& f : img) if (f.first.find("kvd-ckp") != S::npos && !im.count(f.first)) { im[f.first] = f.second; }
                        }
                        if (im.size() && !S0.empty() && C.ckp_commits && cfg.ckp) { continue; }
                    }
                }
            }
            C.images++;
            if (ci.torn) C.torn++;
            if (ci.lost_writes) C.lostw++;
            state_t st; std::map<S, uint64_t> ts; journal rj;
            S what = where + ", crash at " + std::to_string(upto) + "/" + std::to_string(jn.j.size()) + " (recovery ended at " + std::to_string(first) + ") how " + std::to_string(how) + damage;
            try { recover_image(im, st, ts, &rj, what); }
            catch (trouble& tr) { if (tr.kind == "resources") { C.empties++; return; } complain(tr.kind, tr.msg, im); }
            uint64_t rrseq = sh->recovered_seq;
            bool ckpimg = false;
            for (auto& f : im) if (f.first.find("kvd-ckp-gen") != S::npos && f.first.find("tmp") == S::npos) ckpimg = true;
            if (ckpimg) C.ckp_images++;
            bool fl = false; uint64_t cut = 0;
            if (during_recovery) {
                C.in_recovery++;
                if (st != S0) complain("crash during recovery", what + "\nrecovery after a crash during recovery gave different contents (first / second):\n" + diff_state(S0, st), im);
            } else {
                // keys outside this episode's set cannot exist
                S j = judge(h, st, t, dur, fl, ignore_log, cut, 0);
                if (!j.empty()) complain(fl ? "flushed update lost" : "inconsistent state", what + "\n" + j, im);
                if (dur) C.durable_checked++;
                if (dur > t_stop && dur && ignore_log < 0) { C.flushed_images++; if (st != d1) complain("flushed update lost", what + "\nrecovered contents differ from the live table after a full flush (live / recovered):\n" + diff_state(d1, st), im); C.exact++; }
                C.cutops += cut; if (cut) C.cutimages++;
                cut_total += cut;
            }
            note_hash(image_hash(im, cut));
            // ---- a crash during this recovery
            if (r.p(1, 3) && rj.j.size() > 1) {
                size_t lim = 0;
                while (lim < rj.j.size() && rj.j[lim].seq < rrseq) ++lim;
                for (int k = 0; k < 2; ++k) {
                    image_t im2; cutinfo c2;
                    build_image(rj, r(lim + 1), r(3), r, im2, c2, 0);
                    state_t st2; std::map<S, uint64_t> ts2;
                    try { recover_image(im2, st2, ts2, 0, what + ", then a crash during recovery" + c2.desc); }
                    catch (trouble& tr) { if (tr.kind == "resources") return; complain(tr.kind, tr.msg + "\nthe first crash left:\n" + show_image(im) + "\nthen:\n", im2); }
                    C.in_recovery++; C.images++;
                    if (st2 != st) complain("crash during recovery", what + ", then a crash during recovery" + c2.desc + "\ncontents differ (first / second):\n" + diff_state(st, st2), im2);
                }
            }
            // ---- re-partitioned logs: the records recovery kept, all of them before its end marker
            if (PROP == "C16") {
                image_t after; cutinfo ca;
                build_image(rj, rj.j.size(), 1, r, after, ca, 0);
                std::vector<std::pair<S, std::vector<lrec>>> logs; bool ok = true;
                uint64_t endep = 0;
                for (auto& f : after) if (f.first.find("kvd-log") != S::npos && f.first.find(".tmp") == S::npos) {
                    std::vector<lrec> v;
                    bool parsed = parse_log(f.second, v);
                    // (a logger may have gone on to note that its log is quiescent)
                    while (v.size() > 2 && v.back().cmd == logcmd_quiesce && v[v.size() - 2].cmd == logcmd_epoch) v.resize(v.size() - 2);
                    if (!parsed || v.empty() || v.back().cmd != logcmd_epoch) complain("recovered log", what + "\nrecovery left " + f.first + " without an end marker", after);
                    if (endep && endep != v.back().epoch) complain("recovered log", what + "\nrecovery left logs that end in different epochs", after);
                    endep = v.back().epoch;
                    logs.push_back({f.first, v});
                }
                if (ok && logs.size() >= 1) {
                    for (int k = 0; k < 3; ++k) {
                        // collect data records by epoch, keep the rest of each file as it is
                        std::map<uint64_t, std::vector<S>> data;
                        std::map<S, S> last;
                        size_t nrec = 0;
                        std::map<uint64_t, int> dup;
                        for (auto& l : logs) for (auto& x : l.second)
                            if (x.cmd == logcmd_put || x.cmd == logcmd_replace || x.cmd == logcmd_remove || x.cmd == logcmd_modify) {
                                data[x.epoch].push_back(x.raw); ++nrec;
                                if (k == 2 && r.p(1, 6)) { data[x.epoch].push_back(x.raw); C.dupl++; }
                            }
                        if (nrec < 2) break;
                        int nl = k == 0 ? cfg.L : 1 + r(MAXLOG);
                        std::vector<S> out(nl); std::vector<uint64_t> ep(nl, 0);
                        uint64_t mine = ~(uint64_t) 0;
                        if (!data.empty()) mine = data.begin()->first;
                        // the epochs below the cut are complete in every file; one record stream per file
                        std::set<uint64_t> eps; for (auto& d : data) eps.insert(d.first);
                        for (auto& l : logs) for (auto& x : l.second) if (x.epoch < mine && x.epoch) { }
                        uint64_t firste = ~(uint64_t) 0; for (auto& l : logs) for (auto& x : l.second) if (x.cmd == logcmd_epoch && x.epoch && x.epoch < firste) firste = x.epoch;
                        for (int i = 0; i < nl; ++i) { out[i] += epoch_rec(firste); ep[i] = firste; }
                        for (uint64_t x : eps) {
                            auto v = data[x];
                            for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r(i)]);
                            for (auto& raw : v) {
                                int w = r(nl);
                                if (ep[w] != x) { out[w] += epoch_rec(x); ep[w] = x; }
                                out[w] += raw; C.records++;
                            }
                        }
                        for (int i = 0; i < nl; ++i) out[i] += epoch_rec(endep);
                        image_t im2 = after;
                        for (auto& l : logs) im2.erase(l.first);
                        int saveL = cfg.L; cfg.L = nl;
                        for (int i = 0; i < nl; ++i) im2["l" + std::to_string(i % cfg.ndirs) + "/kvd-log-" + std::to_string(i)] = out[i];
                        state_t st2; std::map<S, uint64_t> ts2;
                        S tr_kind, tr_msg;
                        try { recover_image(im2, st2, ts2, 0, what + ", records spread over " + std::to_string(nl) + " files in any order" + (k == 2 ? ", some twice" : "")); }
                        catch (trouble& tr) { tr_kind = tr.kind; tr_msg = tr.msg; }
                        cfg.L = saveL;
                        if (tr_kind == "resources") return;
                        if (!tr_kind.empty()) complain(tr_kind, tr_msg, im2);
                        C.repart++;
                        if (st2 != st) complain("order sensitive", what + "\nthe same records spread over " + std::to_string(nl) + " files in another order" + (k == 2 ? ", some twice," : "") + " gave other contents (original / rearranged):\n" + diff_state(st, st2) + "\noriginal:\n" + show_image(im), im2);
                    }
                }
            }
            if (!during_recovery && (!have_next || r.p(1, 3)) && damage.find("cut at") == S::npos && ignore_log < 0) { have_next = true; next_img = im; nextS = st; nextts = ts; }
            else if (!during_recovery && damage.find("cut at") != S::npos && r.p(1, 3)) { have_next = true; next_img = im; nextS = st; nextts = ts; }
        }
        if (!have_next) return;
        img = next_img; S0 = nextS; ts0 = nextts;
    }
}

int main(int argc, char** argv) {
    uint64_t seed = 1, one = 0, execs = 1000000; double maxs = 30; S hashes, progress;
    S base = "/dev/shm";
    if (access(base.c_str(), W_OK) != 0) base = "/tmp";
    for (int i = 1; i < argc; ++i) {
        S a = argv[i];
        if (a == "--prop") PROP = argv[++i];
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--one") one = strtoull(argv[++i], 0, 10);
        else if (a == "--execs") execs = strtoull(argv[++i], 0, 10);
        else if (a == "--max-seconds") maxs = atof(argv[++i]);
        else if (a == "--out") outf = fopen(argv[++i], "w");
        else if (a == "--replay-dir") replay_dir = argv[++i];
        else if (a == "--hashes") hashes = argv[++i];
        else if (a == "--progress") progress = argv[++i];
        else if (a == "-v") verbose = true;
    }
    want_ckp = PROP == "C15"; damage_mode = PROP == "C14";
    char tmpl[256]; snprintf(tmpl, sizeof(tmpl), "%s/mtlab.XXXXXX", base.c_str());
    if (!mkdtemp(tmpl)) { snprintf(tmpl, sizeof(tmpl), "/tmp/mtlab.XXXXXX"); if (!mkdtemp(tmpl)) return 3; }
    workdir = tmpl; childlog = workdir + "/child.log";
    int prot = PROT_READ | PROT_WRITE, fl = MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE;
    sh = (shared*) mmap(0, sizeof(shared), prot, fl, -1, 0);
    shdata = (char*) mmap(0, DATASZ, prot, fl, -1, 0);
    for (int i = 0; i < 2; ++i) shdump[i] = (char*) mmap(0, DUMPSZ, prot, fl, -1, 0);
    int progfd = progress.empty() ? -1 : __real_open(progress.c_str(), O_CREAT | O_RDWR, 0644);
    double t0 = now();
    int rc = 0; uint64_t nviol = 0;
    for (uint64_t k = 0; k < execs && now() - t0 < maxs; ++k) {
        uint64_t s = one ? one : mix(seed, k) >> 8;
        if (progfd >= 0 && pwrite(progfd, &s, 8, 0) != 8) return 3;
        try { episode(s); }
        catch (trouble& t) {
            if (t.kind == "resources") { C.empties++; continue; }
            rc = 1; ++nviol;
            char path[400]; snprintf(path, sizeof(path), "%s/%s-lab-%llu.txt", replay_dir.c_str(), PROP.c_str(), (unsigned long long) s);
            if (FILE* f = fopen(path, "w")) { fprintf(f, "%s\n%s\n", t.kind.c_str(), t.msg.c_str()); fclose(f); }
            S m = t.msg.substr(0, 900); for (char& c : m) if (c == '\n' || c == '\t') c = ' ';
            if (outf) { fprintf(outf, "VIOL\t%s\t%s\t%s\n", t.kind.c_str(), path, m.c_str()); fflush(outf); }
            printf("%s: %s\n", t.kind.c_str(), one ? t.msg.substr(0, 20000).c_str() : m.c_str());
            if (nviol >= 3) break;
        }
        if (one) { if (C.episodes >= 1 && (rc || k >= 2)) break; }
    }
    for (uint32_t i = 1; i < MAXGUARD; ++i) guards_seen += sh->guards[i] ? 1 : 0;
    char st[2000];
    snprintf(st, sizeof(st), "{\"execs\":%llu,\"cycles\":%llu,\"crash_images\":%llu,\"recoveries\":%llu,\"client_ops\":%llu,\"updates\":%llu,\"images_torn\":%llu,\"images_lost_writes\":%llu,"
        "\"crashes_in_recovery\":%llu,\"images_with_lost_updates\":%llu,\"updates_lost\":%llu,\"images_with_flush_guarantee\":%llu,\"images_fully_flushed\":%llu,\"images_with_checkpoint\":%llu,"
        "\"checkpoints_committed\":%llu,\"damaged_logs\":%llu,\"repartitioned\":%llu,\"records_moved\":%llu,\"records_duplicated\":%llu,\"recovered_again\":%llu,\"skipped\":%llu,\"max_code_edges\":%llu}",
        (unsigned long long) C.episodes, (unsigned long long) C.cycles, (unsigned long long) C.images, (unsigned long long) C.recoveries, (unsigned long long) C.ops, (unsigned long long) C.updates,
        (unsigned long long) C.torn, (unsigned long long) C.lostw, (unsigned long long) C.in_recovery, (unsigned long long) C.cutimages, (unsigned long long) C.cutops, (unsigned long long) C.durable_checked,
        (unsigned long long) C.flushed_images, (unsigned long long) C.ckp_images, (unsigned long long) C.ckp_commits, (unsigned long long) C.damaged, (unsigned long long) C.repart,
        (unsigned long long) C.records, (unsigned long long) C.dupl, (unsigned long long) C.again, (unsigned long long) C.empties, (unsigned long long) guards_seen);
    if (outf) { fprintf(outf, "STATS\t%s\n", st); fclose(outf); }
    printf("%s\n", st);
    if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "wb"); for (uint64_t h : C.hashes) fwrite(&h, 8, 1, f); fclose(f); }
    rmtree_contents(workdir); unlink(childlog.c_str()); rmdir(workdir.c_str());
    return rc;
}
