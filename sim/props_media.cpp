// C04..C09: picture, label and table files under storage faults, corruption and crashes
#include "iocase.h"
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/read_jpeg.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/write_pgm.h"
#include <algorithm>
#include <cerrno>
using namespace sim;
static const char *REAL = IO_REAL, *STUB = IO_STUB;
static const std::vector<size_t> NOIDX;

// value ranges a caller may ask for
static const float LO[] = {0, -1, 0, -0.5f, 2, -1000, 0, -3, -200, 1e5f}, HI[] = {1, 1, 255, 0.5f, 10, 1000, 1e-3f, -1, 0, 1e6f};
static double scaled(uint8_t px, int rg) { return px / 255.0 * ((double) HI[rg] - (double) LO[rg]) + LO[rg]; }
static bool px_ok(float got, uint8_t px, int rg) { return close_to(got, scaled(px, rg), std::max(std::fabs(LO[rg]), std::fabs(HI[rg])) + (HI[rg] - LO[rg])); }
static void bounded(size_t bytes, u64 work = 0) { g_step_budget = total_events() + 20000000 + 4000 * (u64) bytes + 400 * work; alloc().limit_one = 5u << 20; }
static void unbounded() { g_step_budget = 400000000; }
static void gen_loads(Rng &r, Plan &p, i64 size, bool final_clean) { int n = 1 + (int) r.below(3); for (int i = 0; i < n; i++) { std::vector<i64> a; if (r.chance(20)) a.assign(7, 0); else gen_load_fault(r, a, size); p.add("load", a); } if (final_clean) p.add("load", {0, 0, 0, 0, 0, 0, 0}); }
static bool framed_ok(const fp_t *img, u64 h, u64 w, u64 pad, const uint8_t *px, int rg, std::string &why) {
    u64 W = w + 2 * pad; for (u64 y = 0; y < h + 2 * pad; y++) for (u64 x = 0; x < W; x++) {
        float g = img[y * W + x]; bool in = y >= pad && y < h + pad && x >= pad && x < w + pad;
        if (in ? !px_ok(g, px[(y - pad) * w + x - pad], rg) : b_of(g) != b_of(LO[rg]) && g != LO[rg]) { why = fmt("row %llu column %llu (border %llu) is %g, expected %g", (unsigned long long) y, (unsigned long long) x, (unsigned long long) pad, (double) g, in ? scaled(px[(y - pad) * w + x - pad], rg) : (double) LO[rg]); return false; }
    } return true;
}
static std::string stored(const std::string &bytes, const LoadFault &lf) { std::string d = bytes; if (lf.trunc >= 0 && lf.trunc < (i64) d.size()) d.resize((size_t) lf.trunc); return d; }
static void die_check(const Result &q, bool hard_, const char *cls, const char *what) {
    check(q.o == RET || (hard_ && q.o == EXITED && q.exit_code != 0 && q.exit_code != 0x10002) || (hard_ && q.o == THREW_BADALLOC), cls, std::string(what) + " " + describe(q));
}

// ------------------------------------------------------------------ C04
static void exec_c04(const Plan &p) {
    bool lab = p.cfg("labels", 0) != 0; uint32_t n = (uint32_t) clampi(p.cfg("n", 3), 0, 70000), h = (uint32_t) clampi(p.cfg("h", 3), 1, 65535), w = (uint32_t) clampi(p.cfg("w", 3), 1, 65535), req = (uint32_t) clampi(p.cfg("req", 3), 1, 100000), pad = (uint32_t) clampi(p.cfg("pad", 0), 0, 255); int rg = (int) clampi(p.cfg("range", 0), 0, 9);
    if ((u64) h * w > 400000) h = std::max<uint32_t>(1, 400000 / w); if ((u64) n * h * w > 400000) n = 400000 / (h * w); if ((u64) n * (h + 2 * pad) * (w + 2 * pad) > 400000) pad %= 4;
    Rng r((u64) p.cfg("values", 1)); std::vector<uint8_t> px; std::string bytes = lab ? mnist_labels(n, r, px) : mnist_images(n, h, w, r, px, (int) p.cfg("pattern", 0));
    bool changed = false; bytes = mutate_bytes(bytes, p, {0, 4, 8, 12}, NOIDX, changed);
    // number fields are big endian: item hdr index value
    for (auto *it : p.all("hdr")) { size_t o = 4 * (size_t) argc_(*it, 0, 0, lab ? 1 : 3); uint32_t v = (uint32_t) arg(*it, 1); for (int k = 0; k < 4; k++) if (o + k < bytes.size()) bytes[o + k] = (char) (v >> (24 - 8 * k)); changed = true; count("fault.number_overwritten"); }
    int attempt = 0;
    for (auto *it : p.all("load")) {
        if (++attempt > 8) break;
        LoadFault lf = load_fault(*it, 0); bool hf = hard(lf, bytes.size()) || changed; if (hf) nontrivial();
        std::string d = stored(bytes, lf); install(lf, "m", bytes);
        auto be = [&](size_t o) { return o + 4 <= d.size() ? (uint32_t) (uint8_t) d[o] << 24 | (uint32_t) (uint8_t) d[o + 1] << 16 | (uint32_t) (uint8_t) d[o + 2] << 8 | (uint8_t) d[o + 3] : 0u; };
        size_t hs = lab ? 8 : 16; bool okh = d.size() >= hs && be(0) == (lab ? 2049u : 2051u); u64 sn = be(4), sh = lab ? 1 : be(8), sw = lab ? 1 : be(12), exp = std::min<u64>(sn, req); 
        bool can = okh && (lab || ((sh < 70000 && sw < 70000 && sh && sw) || exp == 0)) && (exp == 0 || (d.size() - hs) / (sh * sw) >= exp);
        if (!can) exp = 0;
        i64 ret = -99; fp_t **im = (fp_t **) 0x10; uint8_t *lb = (uint8_t *) 0x10; bounded(d.size(), (u64) n * (h + 2 * pad) * (w + 2 * pad));
        Result q = in_code([&] { if (lab) ret = read_mnist_labels("m", &lb, req); else ret = read_mnist_images("m", &im, req, (uint8_t) pad, LO[rg], HI[rg]); });
        unbounded(); note(fmt("load %d: %s, %lld items; stored allows %llu", attempt, describe(q).c_str(), (long long) ret, (unsigned long long) exp));
        die_check(q, hf, "c04-died", "the MNIST reader"); if (q.o != RET) { drop_handles(); forget_blocks(); continue; }
        ret = (i64) (uint32_t) ret;
        if (!hf) check(ret == (i64) std::min(n, req), "c04-undisturbed-count", fmt("%lld items returned from an undisturbed file of %u when %u were requested", (long long) ret, n, req));
        else if (ret != 0) check(ret == (i64) exp, "c04-count", fmt("%lld items returned, the file holds %llu complete ones of those requested", (long long) ret, (unsigned long long) exp));
        if (ret > 0) {
            count("probe.items_read"); const uint8_t *b = (const uint8_t *) d.data() + hs; std::string why;
            if (lab) { for (i64 i = 0; i < ret; i++) check(lb[i] == b[i], "c04-label", fmt("label %lld is %u, stored %u", (long long) i, lb[i], b[i])); free(lb); }
            else { for (i64 i = 0; i < ret; i++) check(framed_ok(im[i], sh, sw, pad, b + (u64) i * sh * sw, rg, why), "c04-image", fmt("image %lld: ", (long long) i) + why); for (i64 i = 0; i < ret; i++) free(im[i]); free(im); }
        } else count("probe.refused");
        drop_handles(); forget_blocks(); sim_time(0.01);
    }
}
static void gen_c04(Rng &r, Plan &p, int) {
    bool lab = r.chance(25); i64 n = r.chance(5) ? 0 : 1 + (i64) r.below(r.chance(10) ? 60 : 6), h = 1 + (i64) r.below(r.chance(10) ? 40 : 6), w = 1 + (i64) r.below(r.chance(10) ? 40 : 6);
    p.add("labels", {lab}); p.add("n", {n}); p.add("h", {h}); p.add("w", {w}); p.add("req", {1 + (i64) r.below(r.chance(70) ? n + 2 : 80)}); p.add("pad", {r.chance(60) ? (i64) r.below(4) : r.chance(95) ? (i64) r.below(12) : (i64) r.below(256)}); p.add("range", {(i64) r.below(10)}); p.add("values", {(i64) r.below(100000)}); p.add("pattern", {(i64) r.below(5)});
    i64 size = lab ? 8 + n : 16 + n * h * w; bool dmg = r.chance(30);
    if (dmg) { if (r.chance(60)) { static const i64 sp[] = {0, 1, 2, 5, 100, 2049, 2051, 2050, 65535, 65536, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x40000001, 0xfffffffell, 1000000}; p.add("hdr", {(i64) r.below(4), sp[r.below(16)]}); if (r.chance(30)) p.add("hdr", {(i64) r.below(4), sp[r.below(16)]}); } else gen_mut(r, p, size, false, false); }
    gen_loads(r, p, size, true);
}
static Reg rc04(Prop{"C04", [](Rng &r, Plan &p, int t) { gen_c04(r, p, t); p.add("vary", {(i64) r.below(3)}); }, [](const Plan &p) { varied(p, exec_c04, [](Plan &s, i64 k) { bump(s, "h", 3, k % 2); bump(s, "w", 3, k % 3); bump(s, "n", 3, k % 2 + (k + 1) % 2 * 2); bump(s, "req", 3, k % 3); if (k & 1) bump(s, "pad", 0, k, 4); if (k & 2) bump(s, "range", 0, k, 10); }); }, 80000, 3000000, [](int) { std::vector<Plan> v; for (i64 lab = 0; lab < 2; lab++) for (int mode = 0; mode < 2; mode++) for (i64 o = 0; o < 90; o++) { Plan p; p.prop = "C04"; p.add("labels", {lab}); p.add("n", {lab ? 40 : 5}); p.add("h", {3}); p.add("w", {4}); p.add("req", {lab ? 38 : 5}); p.add("pad", {1}); p.add("load", {0, mode ? 0 : 1 + o, mode ? 1 + o : 0, 1, 0, 0, 0}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        // pictures with many pixels and large borders
        static const i64 big[][4] = {{2, 120, 120, 3}, {1, 1, 120, 100}, {1, 120, 1, 100}, {3, 28, 28, 2}, {60, 28, 28, 0}, {1, 2, 2, 255}, {1, 65535, 1, 0}, {1, 1, 65535, 0}, {2, 65535, 2, 1}, {2, 2, 65535, 1}, {33000, 2, 1, 0}, {66000, 1, 1, 0}, {66000, 1, 1, 1}, {300, 1, 1, 0}, {300, 5, 7, 1}, {1, 256, 256, 1}, {1, 257, 3, 0}, {2, 3, 300, 2}}; for (auto &b : big) { Plan p; p.prop = "C04"; p.add("n", {b[0]}); p.add("h", {b[1]}); p.add("w", {b[2]}); p.add("req", {b[0]}); p.add("pad", {b[3]}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        for (i64 n : {256, 300, 32768, 40000, 65536, 70000}) for (i64 more : {0, 5, -1}) { Plan p; p.prop = "C04"; p.add("labels", {1}); p.add("n", {n}); p.add("req", {n + more}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        return v; },
    "seeded MNIST image and label files (counts, sizes, borders, value ranges, byte patterns) read several times under missing files, truncation, read errors, re-chunked reads, overwritten header numbers and damaged bytes, ending with the undisturbed or damaged file; every truncation and read-error offset of one file of each kind. Non-trivial: a hard fault or damage", REAL, STUB});

// ------------------------------------------------------------------ C05
static std::string comment_of(i64 len) { len = clampi(len, 0, 4000); std::string s; for (i64 i = 0; i < len; i++) s.push_back((char) (32 + (i * 7 + 11) % 90)); return s; }
static void exec_c05(const Plan &p) {
    i64 h = clampi(p.cfg("h", 3), 1, 65535), w = clampi(p.cfg("w", 3), 1, 65535), pad = clampi(p.cfg("pad", 0), 0, 255); if (h * w > 200000) h = std::max<i64>(1, 200000 / w); if ((h + 2 * pad) * (w + 2 * pad) > 600000) pad = std::min<i64>(pad, 3);
    int rg = (int) clampi(p.cfg("range", 0), 0, 9); Rng r((u64) p.cfg("values", 1)); std::vector<uint8_t> px = rnd_pixels(r, (size_t) (h * w), (int) p.cfg("pattern", 0));
    std::string bytes = pgm_encode((uint32_t) h, (uint32_t) w, comment_of(p.cfg("comment", 10)), px), good = bytes; bool changed = false;
    if (const Item *it = p.find("header")) {   // another header: tokens
        static const char *tok[] = {"", "0", "-1", "65535", "65536", "99999999999", "4294967297", "x", "+3", " 3", "3.5", "0x10", "256", "254", "1", "\t2", "00004", "-3", "255255"};
        std::string t[3]; for (int k = 0; k < 3; k++) { i64 x = arg(*it, k, -1); t[k] = x >= 0 && x < 19 ? tok[x] : k == 0 ? fmt("%lld", (long long) w) : k == 1 ? fmt("%lld", (long long) h) : "255"; }
        static const char *mg[] = {"P5\n", "P2\n", "P5", "", "P6\n", "p5\n", "P5 \n", "P55\n"}; std::string m = mg[argc_(*it, 3, 0, 7)];
        bytes = m + "# c\n" + t[0] + (arg(*it, 4) == 1 ? "\n" : arg(*it, 4) == 2 ? "" : " ") + t[1] + "\n" + t[2] + (arg(*it, 5) == 1 ? "" : arg(*it, 5) == 2 ? " " : "\n") + std::string((const char *) px.data(), px.size()); changed = bytes != good; count("fault.header_rewritten");
    }
    bool c2; bytes = mutate_bytes(bytes, p, NOIDX, NOIDX, c2); changed = bytes != good; int attempt = 0;
    for (auto *it : p.all("load")) {
        if (++attempt > 8) break;
        LoadFault lf = load_fault(*it, 0); bool hf = hard(lf, bytes.size()) || changed; if (hf) nontrivial(); std::string d = stored(bytes, lf); install(lf, "p", bytes);
        Pgm e; std::string why; bool acc = pgm_parse(d, e, why); i64 ret = -99; fp_t *im = (fp_t *) 0x10; uint16_t gh = 4711, gw = 4711; bounded(d.size(), (u64) (h + 2 * pad) * (u64) (w + 2 * pad));
        Result q = in_code([&] { ret = read_pgm(&im, "p", (uint8_t) pad, LO[rg], HI[rg], &gh, &gw); });
        unbounded(); note(fmt("load %d: %s, result %lld, %ux%u; oracle: %s", attempt, describe(q).c_str(), (long long) ret, gw, gh, acc ? "readable" : why.c_str()));
        die_check(q, hf, "c05-died", "the PGM reader"); if (q.o != RET) { drop_handles(); forget_blocks(); continue; }
        if (!hf) check(ret == 0, "c05-undisturbed-refused", fmt("an undisturbed picture of %lldx%lld is refused with %lld", (long long) w, (long long) h, (long long) ret));
        if (ret == 0) {
            count("probe.read_ok"); check(acc, "c05-accepted", "a file that must be refused was accepted: " + why); check(gh == e.h && gw == e.w, "c05-dimensions", fmt("dimensions %ux%u, stored %llux%llu", gw, gh, (unsigned long long) e.w, (unsigned long long) e.h));
            if (e.h && e.w && e.maxv == 255) check(framed_ok(im, e.h, e.w, (u64) pad, e.px.data(), rg, why), "c05-pixel", why);
            free(im);
        } else count("probe.refused");
        drop_handles(); forget_blocks(); sim_time(0.01);
    }
}
static void gen_c05(Rng &r, Plan &p, int) {
    i64 h = 1 + (i64) r.below(8), w = 1 + (i64) r.below(8); if (r.chance(8)) { if (r.chance(50)) h = 1 + (i64) r.below(600); else w = 1 + (i64) r.below(600); }
    static const i64 cl[] = {0, 1, 60, 95, 96, 97, 98, 99, 100, 120, 197, 198, 199, 300, 1000}; i64 c = r.chance(70) ? (i64) r.below(40) : cl[r.below(15)];
    p.add("h", {h}); p.add("w", {w}); p.add("comment", {c}); p.add("pad", {r.chance(75) ? (i64) r.below(4) : r.chance(97) ? (i64) r.below(12) : (i64) r.below(256)}); p.add("range", {(i64) r.below(10)}); p.add("values", {(i64) r.below(100000)}); p.add("pattern", {(i64) r.below(5)});
    int k = (int) r.below(100); i64 size = h * w + 16 + c;
    if (k < 15) p.add("header", {(i64) r.below(22) - 3, (i64) r.below(22) - 3, (i64) r.below(22) - 3, r.chance(20) ? (i64) r.below(8) : 0, r.chance(20) ? (i64) r.below(3) : 0, r.chance(20) ? (i64) r.below(3) : 0});
    else if (k < 30) gen_mut(r, p, r.chance(50) ? 20 + c : size, false, false);
    gen_loads(r, p, size, true);
}
static Reg rc05(Prop{"C05", [](Rng &r, Plan &p, int t) { gen_c05(r, p, t); p.add("vary", {(i64) r.below(3)}); }, [](const Plan &p) { varied(p, exec_c05, [](Plan &s, i64 k) { bump(s, "h", 3, k % 2); bump(s, "w", 3, k % 3); bump(s, "comment", 10, k * 13, 220); if (k & 1) bump(s, "pad", 0, k, 4); if (k & 2) bump(s, "range", 0, k, 10); }); }, 80000, 3000000, [](int) { std::vector<Plan> v; for (int mode = 0; mode < 2; mode++) for (i64 o = 0; o < 60; o++) { Plan p; p.prop = "C05"; p.add("h", {4}); p.add("w", {5}); p.add("pad", {1}); p.add("comment", {10}); p.add("load", {0, mode ? 0 : 1 + o, mode ? 1 + o : 0, 1, 0, 0, 0}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        static const i64 big[][3] = {{1, 65535, 0}, {1, 65535, 1}, {65535, 1, 0}, {65535, 1, 1}, {3, 65530, 3}, {65533, 2, 2}, {300, 300, 4}, {2, 2, 255}, {255, 257, 3}, {256, 256, 0}}; for (auto &b : big) { Plan p; p.prop = "C05"; p.add("h", {b[0]}); p.add("w", {b[1]}); p.add("pad", {b[2]}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        for (i64 pt = 0; pt < 256; pt++) { Plan p; p.prop = "C05"; p.add("h", {1}); p.add("w", {3}); p.add("values", {pt}); p.add("pattern", {2}); p.add("comment", {pt % 220}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        return v; },
    "seeded PGM files (sizes up to 65535, borders, ranges, comment lengths, pixel bytes that look like white space, digits or comments) read under missing files, truncation, read errors, re-chunked reads, rewritten headers and damaged bytes; every truncation and read-error offset of one file. Non-trivial: a hard fault or damage", REAL, STUB});

// ------------------------------------------------------------------ C06
static void exec_c06(const Plan &p) {
    uint32_t h = (uint32_t) clampi(p.cfg("h", 5), 1, 3000), w = (uint32_t) clampi(p.cfg("w", 5), 1, 65000); if ((u64) h * w > 250000) h = std::max<uint32_t>(1, 250000 / w); int rg = (int) clampi(p.cfg("range", 0), 0, 9);
    Rng r((u64) p.cfg("values", 1)); std::string bytes = p.cfg("empty", 0) ? "" : jpeg_encode(h, w, p.cfg("gray", 0) != 0, (int) clampi(p.cfg("quality", 80), 1, 100), p.cfg("progressive", 0) != 0, (int) clampi(p.cfg("restart", 0), 0, 20), r, (int) clampi(p.cfg("space", 0), 0, 6)), good = bytes; bool c; bytes = mutate_bytes(bytes, p, NOIDX, NOIDX, c); bool changed = bytes != good || bytes.empty(); int attempt = 0; if (clampi(p.cfg("space", 0), 0, 6) >= 4) { count("fault.no_rgb_picture"); changed = true; }
    for (auto *it : p.all("load")) {
        if (++attempt > 6) break;
        LoadFault lf = load_fault(*it, 0); if (p.cfg("relative", 0) && lf.trunc >= 0) lf.trunc = (i64) bytes.size() - 1 - lf.trunc % (i64) std::max<size_t>(1, bytes.size());
        bool hf = hard(lf, bytes.size()) || changed; if (hf) nontrivial(); std::string d = stored(bytes, lf); install(lf, "j", bytes);
        Jpeg e = jpeg_decode(d); i64 ret = -99; fp_t **im = (fp_t **) 0x10; uint16_t gh = 4711, gw = 4711; bounded(d.size(), (u64) e.w * e.h * 40 + 200000); alloc().limit_one = 256u << 20;
        Result q = in_code([&] { ret = read_jpeg(&im, "j", LO[rg], HI[rg], &gh, &gw); });
        unbounded(); note(fmt("load %d: %s, result %lld, %ux%u; reference decoder: status %d %ux%u", attempt, describe(q).c_str(), (long long) ret, gw, gh, e.status, e.w, e.h));
        check(q.o == RET || (hf && q.o == THREW_BADALLOC), "c06-died", "the JPEG reader " + describe(q));
        for (auto &m : take_mem_errors()) check(false, "c06-file-misuse", m);
        if (!hf) check(ret == 0, "c06-undisturbed-refused", fmt("an undisturbed %ux%u picture is refused with %lld", w, h, (long long) ret));
        if (q.o == RET && ret == 0) {
            count("probe.read_ok"); check(e.status != 1, "c06-accepted", "a picture that cannot be decoded completely was reported as read"); check(e.comps == 0 || e.comps == 1 || e.comps == 3, "c06-color-space", fmt("a picture of %u color components (neither gray nor red, green and blue) was reported as read", e.comps));
            if (e.w && e.w <= 65535 && e.h <= 65535) {
                check(gh == e.h && gw == e.w, "c06-dimensions", fmt("dimensions %ux%u, decoded %ux%u", gw, gh, e.w, e.h));
                if (e.comps == 1 || e.comps == 3) for (u64 i = 0; i < (u64) e.w * e.h; i++) for (int k = 0; k < 3; k++) { uint8_t v = e.comps == 1 ? e.px[i] : e.px[i * 3 + k]; check(px_ok(im[2 - k][i], v, rg), "c06-pixel", fmt("plane %d row %llu column %llu is %g, decoded value scales to %g", 2 - k, (unsigned long long) (i / e.w), (unsigned long long) (i % e.w), (double) im[2 - k][i], scaled(v, rg))); }
            }
            for (int k = 0; k < 3; k++) free(im[k]); free(im);
        } else count("probe.refused");
        drop_handles(); forget_blocks(); sim_time(0.01);
    }
}
static void gen_c06(Rng &r, Plan &p, int) {
    i64 h = 1 + (i64) r.below(24), w = 1 + (i64) r.below(24); if (r.chance(2)) w = 1 + (i64) r.below(2000); p.add("h", {h}); p.add("w", {w}); p.add("gray", {(i64) r.below(4) == 0}); if (r.chance(35)) p.add("space", {1 + (i64) r.below(6)}); p.add("quality", {1 + (i64) r.below(100)}); p.add("progressive", {(i64) r.below(4) == 0}); p.add("restart", {r.chance(20) ? (i64) r.below(4) : 0}); p.add("range", {(i64) r.below(10)}); p.add("values", {(i64) r.below(100000)}); p.add("relative", {(i64) r.below(2)}); if (r.chance(1)) p.add("empty", {1});
    i64 size = 620 + h * w; if (r.chance(35)) gen_mut(r, p, size, false, false);
    gen_loads(r, p, size, true);
}
static Reg rc06(Prop{"C06", [](Rng &r, Plan &p, int t) { gen_c06(r, p, t); p.add("vary", {(i64) r.below(3)}); }, [](const Plan &p) { varied(p, exec_c06, [](Plan &s, i64 k) { bump(s, "h", 5, k % 2 * 3); bump(s, "w", 5, k % 3); if (k & 1) bump(s, "gray", 0, 1, 2); if (k & 2) bump(s, "range", 0, k, 10); bump(s, "progressive", 0, k, 2); }); }, 40000, 1500000, [](int tier) { std::vector<Plan> v; for (int g = 0; g < 2; g++) for (int mode = 0; mode < 2; mode++) for (i64 o = 0; o < (tier ? 900 : 900); o++) { Plan p; p.prop = "C06"; p.add("h", {9}); p.add("w", {11}); p.add("gray", {g}); p.add("load", {0, mode ? 0 : 1 + o, mode ? 1 + o : 0, 1, 0, 0, 0}); v.push_back(p); }
        static const i64 big[][3] = {{1, 65000, 0}, {2, 21846, 0}, {2, 30000, 0}, {1, 65000, 1}, {400, 300, 0}, {3000, 2, 0}}; for (auto &b : big) { Plan p; p.prop = "C06"; p.add("h", {b[0]}); p.add("w", {b[1]}); p.add("gray", {b[2]}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        for (i64 sp = 0; sp <= 6; sp++) for (i64 pr = 0; pr < 2; pr++) { Plan p; p.prop = "C06"; p.add("space", {sp}); p.add("progressive", {pr}); p.add("h", {19}); p.add("w", {23}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        { Plan p; p.prop = "C06"; p.add("empty", {1}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        return v; },
    "seeded JPEG files (baseline, progressive, restart markers, gray, YCbCr, RGB, subsampled, CMYK, YCCK and two-component, sizes up to 65000 columns) read under missing files, truncation, read errors, re-chunked reads and damaged bytes, compared with an independent decode of the stored bytes; every truncation and read-error offset of two files. Non-trivial: a hard fault or damage", REAL, STUB});

// ------------------------------------------------------------------ C07
static float rnd_mean(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return -(float) (r.unit() * 200); case 2: return f_of((uint32_t) r.below(0x7f800000)); case 3: return (float) r.below(256); default: return (float) (r.unit() * 255); } }
static std::string label_text(Rng &r, i64 len) { len = clampi(len, 0, 5000); std::string s; for (i64 i = 0; i < len; i++) { char c = (char) (32 + r.below(95)); s.push_back(c); } return s; }
static void exec_c07(const Plan &p) {
    int what = (int) clampi(p.cfg("what", 0), 0, 2); uint32_t req = (uint32_t) clampi(p.cfg("req", 3), 1, 80000); Rng r((u64) p.cfg("values", 1)); std::string bytes; std::vector<float> mv; std::vector<std::string> lines; size_t first_bad = (size_t) -1;
    if (what == 0) { bytes = "FD\n"; i64 nm = clampi(p.cfg("n", 3), 0, 6); for (i64 i = 0; i < nm; i++) { mv.push_back(rnd_mean(r)); bytes += fmt("%a\n", (double) mv.back()); } if (nm < 3) first_bad = 0; }
    else if (what == 1) { i64 n = clampi(p.cfg("n", 3), 0, 70000); i64 maxlen = clampi(p.cfg("len", 20), 0, 600); for (i64 i = 0; i < n; i++) lines.push_back(label_text(r, (i64) r.below((u64) maxlen + 1))); for (auto *it : p.all("line")) if (!lines.empty()) lines[(size_t) arg(*it, 0) % lines.size()] = label_text(r, arg(*it, 1)); for (auto &l : lines) bytes += l + "\n"; if (p.cfg("noeol", 0) && !lines.empty() && !lines.back().empty()) bytes.pop_back(); }
    else { i64 n = clampi(p.cfg("n", 3), 0, 70000); i64 mx = clampi(p.cfg("class", 1000), 1, 10000); for (i64 i = 0; i < n; i++) lines.push_back(fmt("ILSVRC2012_val_%08lld.JPEG %0*llu", (long long) i + 1, (int) clampi(p.cfg("width", 1), 1, 5), (unsigned long long) r.below((u64) mx)));
        for (auto *it : p.all("line")) if (!lines.empty()) { size_t k = (size_t) arg(*it, 0) % lines.size(); switch (arg(*it, 1)) { case 0: lines[k] = lines[k].substr(0, 28); break; case 1: lines[k] = ""; break; case 2: lines[k] = lines[k].substr(0, 29) + "abc"; break; case 3: lines[k] = lines[k].substr(0, 29); break; case 4: lines[k] = lines[k].substr(0, 15); break; default: lines[k] = "short 5"; } first_bad = std::min(first_bad, k); count("fault.malformed_line"); }
        for (auto &l : lines) bytes += l + "\n"; }
    std::string good = bytes; bool c; if (what == 0) bytes = mutate_bytes(bytes, p, NOIDX, NOIDX, c); bool changed = bytes != good; int attempt = 0;
    for (auto *it : p.all("load")) {
        if (++attempt > 8) break;
        LoadFault lf = load_fault(*it, 0); bool hf = hard(lf, bytes.size()) || changed || first_bad != (size_t) -1; if (hf) nontrivial(); std::string d = stored(bytes, lf); install(lf, "t", bytes); i64 ret = -99; bounded(d.size(), req);
        float m[3] = {-7, -7, -7}; char **lab = (char **) 0x10; uint32_t *val = (uint32_t *) 0x10;
        Result q = in_code([&] { if (what == 0) ret = read_means("t", m); else if (what == 1) ret = read_imagenet_labels("t", &lab, req); else ret = read_imagenet_validation_labels("t", &val, req); });
        unbounded(); note(fmt("load %d: %s, result %lld", attempt, describe(q).c_str(), (long long) ret));
        die_check(q, hf, "c07-died", "the table reader"); if (q.o != RET) { drop_handles(); forget_blocks(); continue; }
        if (what == 0) {
            if (!hf) check(ret == 0, "c07-undisturbed-refused", fmt("an undisturbed means file is refused with %lld", (long long) ret));
            if (ret == 0) {
                count("probe.read_ok"); check(d.compare(0, 3, "FD\n") == 0, "c07-accepted", "a means file with a wrong magic number was accepted");
                if (!changed) { check(mv.size() >= 3, "c07-accepted", "a means file with fewer than three values was accepted"); for (int k = 0; k < 3; k++) check(b_of(m[k]) == b_of(mv[(size_t) k]), "c07-mean", fmt("mean %d is %a, stored %a%s", k, (double) m[k], (double) mv[(size_t) k], lf.trunc >= 0 ? " (file cut off)" : "")); }
                else { const char *s = d.c_str() + 3; for (int k = 0; k < 3; k++) { char *e; float x = strtof(s, &e); check(e != s && (*e == 0 || isspace((unsigned char) *e)), "c07-accepted", fmt("a means file whose value %d is not a number was accepted", k)); check(b_of(m[k]) == b_of(x) || (m[k] != m[k] && x != x), "c07-mean", fmt("mean %d is %a, stored %a", k, (double) m[k], (double) x)); s = e; } }
            } else count("probe.refused");
        } else {
            // lines actually stored
            std::vector<std::string> sl; size_t pos = 0; bool open_end = false; while (pos < d.size()) { size_t e = d.find('\n', pos); if (e == std::string::npos) { sl.push_back(d.substr(pos)); open_end = true; break; } sl.push_back(d.substr(pos, e - pos)); pos = e + 1; }
            i64 n = ret < 0 ? 0 : ret; u64 avail = std::min<u64>(req, std::min<u64>(sl.size(), first_bad));
            if (!hf) check(ret == (i64) std::min<u64>(req, lines.size()), "c07-undisturbed-count", fmt("%lld entries reported from an undisturbed file of %zu lines when %u were requested", (long long) ret, lines.size(), req));
            check((u64) n <= avail, "c07-count", fmt("%lld entries reported, only %llu can be valid", (long long) n, (unsigned long long) avail));
            if (n > 0) { count("probe.read_ok");
                for (i64 i = 0; i < n; i++) {
                    if (what == 1) check(sl[(size_t) i] == lab[i], "c07-label", fmt("label %lld differs: \"%.60s\" (length %zu), stored \"%.60s\" (length %zu)", (long long) i, lab[i], strlen(lab[i]), sl[(size_t) i].c_str(), sl[(size_t) i].size()));
                    else { const std::string &l = sl[(size_t) i]; bool okl = l.size() > 29; for (size_t k = 29; k < l.size(); k++) okl = okl && isdigit((unsigned char) l[k]); check(okl, "c07-validation-made-up", fmt("entry %lld is counted as valid but its line holds no class", (long long) i + 1)); check(val[i + 1] == strtoul(l.c_str() + 28, nullptr, 10), "c07-validation-label", fmt("entry %lld is %u, stored \"%.60s\"", (long long) i + 1, val[i + 1], l.c_str())); }
                }
                (void) open_end;
                if (what == 1) { for (i64 i = 0; i < n; i++) free(lab[i]); free(lab); } else free(val);
            } else count("probe.refused");
        }
        drop_handles(); forget_blocks(); sim_time(0.01);
    }
}
static void gen_c07(Rng &r, Plan &p, int) {
    i64 what = (i64) r.below(3), n = what == 0 ? (r.chance(85) ? 3 : (i64) r.below(6)) : r.chance(5) ? 0 : 1 + (i64) r.below(r.chance(10) ? 60 : 8); if (what && r.chance(1)) n = 900 + (i64) r.below(300);
    p.add("what", {what}); p.add("n", {n}); p.add("req", {r.chance(70) ? 1 + (i64) r.below((u64) n + 2) : 1 + (i64) r.below(1200)}); p.add("values", {(i64) r.below(100000)}); p.add("noeol", {(i64) r.below(4) == 0}); p.add("class", {r.chance(80) ? 1000 : r.chance(50) ? 10 : 10000}); p.add("width", {r.chance(75) ? 1 : 1 + (i64) r.below(5)}); p.add("len", {r.chance(80) ? (i64) r.below(30) : (i64) r.below(300)});
    static const i64 ll[] = {0, 1, 252, 253, 254, 255, 256, 257, 300, 508, 509, 510, 1000};
    if (what == 1 && r.chance(30)) p.add("line", {(i64) r.below((u64) n + 1), ll[r.below(13)]});
    if (what == 2 && r.chance(30)) p.add("line", {(i64) r.below((u64) n + 1), (i64) r.below(6)});
    i64 size = what == 0 ? 3 + n * 14 : what == 1 ? n * 12 : n * 32; if (what == 0 && r.chance(25)) gen_mut(r, p, size, false, false);
    gen_loads(r, p, size, true);
}
static Reg rc07(Prop{"C07", [](Rng &r, Plan &p, int t) { gen_c07(r, p, t); p.add("vary", {(i64) r.below(3)}); }, [](const Plan &p) { varied(p, exec_c07, [](Plan &s, i64 k) { if (s.cfg("what", 0)) bump(s, "n", 3, k % 3); bump(s, "req", 3, k % 2 * 2); if (k & 1) bump(s, "len", 20, 7, 300); if (k & 2) bump(s, "noeol", 0, 1, 2); }); }, 80000, 3000000, [](int) { std::vector<Plan> v; for (i64 what = 0; what < 3; what++) for (int mode = 0; mode < 2; mode++) for (i64 o = 0; o < 140; o++) { Plan p; p.prop = "C07"; p.add("what", {what}); p.add("n", {what == 0 ? 3 : 4}); p.add("req", {4}); p.add("load", {0, mode ? 0 : 1 + o, mode ? 1 + o : 0, 1, 0, 0, 0}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        for (i64 what = 1; what < 3; what++) for (i64 n : {999, 1000, 1001, 1002, 1500, 2500}) for (i64 q : {1, 1000, 1001, 2500}) { Plan p; p.prop = "C07"; p.add("what", {what}); p.add("n", {n}); p.add("req", {q}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        for (i64 what = 1; what < 3; what++) for (i64 n : {255, 256, 257, 32768, 50000, 66000}) for (i64 q : {256, 50000, 80000}) { Plan p; p.prop = "C07"; p.add("what", {what}); p.add("n", {n}); p.add("len", {4}); p.add("req", {q}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        for (i64 l : {506, 507, 508, 509, 510, 511, 512, 513, 760, 761, 762, 763, 764, 765, 1015, 1016, 1020, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097}) for (i64 k = 0; k < 4; k++) { Plan p; p.prop = "C07"; p.add("what", {1}); p.add("n", {3}); p.add("line", {k & 1 ? 2 : 0, l}); p.add("noeol", {k >> 1}); p.add("req", {5}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        for (i64 l = 240; l < 270; l++) { Plan p; p.prop = "C07"; p.add("what", {1}); p.add("n", {3}); p.add("line", {1, l}); p.add("noeol", {l & 1}); p.add("req", {5}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        return v; },
    "seeded means files, label files (line lengths 0..1000, up to 2500 lines, with and without a final line end) and validation tables (malformed lines) read under missing files, truncation, read errors and re-chunked reads; every truncation and read-error offset of one file per kind. Non-trivial: a hard fault or damage", REAL, STUB});

// ------------------------------------------------------------------ C08, C09
static std::vector<float> picture(const Item *it) {   // item pic h w values kind
    u64 h = (u64) argc_(*it, 0, 1, 65535), w = (u64) argc_(*it, 1, 1, 65535); if (h * w > 200000) h = std::max<u64>(1, 200000 / w);
    Rng r((u64) arg(*it, 2)); std::vector<float> v(h * w); float c = (float) (r.unit() * 100 - 50);
    for (auto &x : v) switch (arg(*it, 3)) { case 1: x = c; break; case 2: x = (float) (1001 + r.unit() * 5000); break; case 3: x = (float) (-1001 - r.unit() * 5000); break; case 4: x = (float) ((r.unit() * 2 - 1) * 3.4e38); break; case 5: x = f_of((uint32_t) r.below(0x007fffff)); break; case 6: { uint32_t b; do b = (uint32_t) r.next(); while ((b & 0x7f800000) == 0x7f800000); x = f_of(b); break; } case 7: x = (float) r.below(256); break; case 8: x = (float) r.below(2) * 1e-3f + 5; break; case 9: x = (float) r.below(3) - 1; break; case 11: { static const uint32_t sp[] = {0x80000000, 0, 1, 0x80000001, 0x00800000, 0x007fffff, 0x3f800000, 0xbf800000, 0x42c80000, 0x7f7fffff, 0xff7fffff}; x = f_of(sp[r.below(9 + (u64) (c > 0) * 2)]); break; } case 12: x = r.chance(50) ? -0.0f : (float) r.below(2); break; default: x = (float) (r.unit() * 8 - 4); }
    return v;
}
static void dims_of(const Item *it, size_t n, uint16_t &h, uint16_t &w) { w = (uint16_t) argc_(*it, 1, 1, 65535); h = (uint16_t) (n / w); }
// item io ... write fault: open_errno full+1 eio+1 sticky chunk cseed bufsize+1 close_errno close_drop crash(0 none, -2 at close, else +1)
static StreamFault wfault(const Item *it) { StreamFault s; if (!it) return s; s.open_errno = (int) arg(*it, 0); s.full_at = arg(*it, 1) - 1; s.eio_at = arg(*it, 2) - 1; s.eio_sticky = (int) arg(*it, 3); s.chunk = std::max<i64>(0, arg(*it, 4)); s.chunk_seed = (u64) arg(*it, 5); i64 b = arg(*it, 6) - 1; s.bufsize = b >= 1 ? std::min<i64>(b, 1 << 20) : -1; s.close_errno = (int) arg(*it, 7); s.close_drop = std::max<i64>(0, arg(*it, 8)); i64 c = arg(*it, 9); s.crash_at = c == -2 ? -2 : c - 1; return s; }
static void gen_wfault(Rng &r, std::vector<i64> &a, i64 size, bool crash) {
    a.assign(10, 0); auto off = [&]() -> i64 { u64 k = r.below(10); if (k < 2) return (i64) r.below(30); if (k < 4) return std::max<i64>(0, size - 1 - (i64) r.below(6)); return (i64) r.below((u64) size + 1); };
    int k = (int) r.below(100);
    if (k < 7) { static const int es[] = {ENOENT, EACCES, EMFILE, ENOSPC, EROFS}; a[0] = es[r.below(5)]; } else if (k < 32) a[1] = 1 + off(); else if (k < 50) { a[2] = 1 + off(); a[3] = (i64) r.below(3) > 0; } else if (k < 62) { a[7] = r.chance(50) ? EIO : ENOSPC; a[8] = r.chance(60) ? 1 + (i64) r.below(40) : 0; } else if (k < 85 && crash) a[9] = r.chance(5) ? -2 : 1 + off();
    if (r.chance(50)) { static const i64 c[] = {1, 2, 3, 7, 61, 512}; a[4] = c[r.below(6)]; if (r.chance(50)) a[5] = 1 + (i64) r.below(1000); }
    if (r.chance(40)) { static const i64 b[] = {1, 2, 7, 16, 100, 512, 4096, 65536}; a[6] = 1 + b[r.below(8)]; }
}
static bool wf_any(const StreamFault &f) { return f.open_errno || f.full_at >= 0 || f.eio_at >= 0 || f.close_errno || f.crash_at != -1; }
static std::string show(const StreamFault &f) { return fmt("open errno %d, full at %lld, write error at %lld%s, pieces of %lld, stdio buffer %lld, close errno %d dropping %lld, killed at %lld", f.open_errno, (long long) f.full_at, (long long) f.eio_at, f.eio_sticky ? " (lasting)" : "", (long long) f.chunk, (long long) f.bufsize, f.close_errno, (long long) f.close_drop, (long long) f.crash_at); }
static double gray_of(float x, float mn, float mx) { return mx == mn ? 0 : ((double) x - mn) / ((double) mx - mn) * 255.0; }
static void check_float_file(const std::string &d, uint16_t h, uint16_t w, const std::vector<float> &v) {
    check(d.compare(0, 3, "FF\n") == 0, "c08-float-header", "float file has a wrong magic number"); const char *s = d.c_str() + 3; char *e;
    check(strtoul(s, &e, 10) == h && *e == '\n', "c08-float-header", "float file does not state the height"); s = e; check(strtoul(s, &e, 10) == w && *e == '\n', "c08-float-header", "float file does not state the width"); s = e;
    for (size_t i = 0; i < v.size(); i++) { float x = strtof(s, &e); check(e != s && b_of(x) == b_of(v[i]), "c08-float-value", fmt("success reported, but value %zu reads back as %a instead of %a", i, e == s ? 0.0 : (double) x, (double) v[i])); s = e; }
    while (*s == '\n') s++; check((size_t) (s - d.c_str()) == d.size(), "c08-float-trailing", "float file has trailing data");
}
static void check_pgm_file(const std::string &d, uint16_t h, uint16_t w, const std::vector<float> &v) {
    Pgm g; std::string why; check(pgm_parse(d, g, why), "c08-pgm-incomplete", "success reported, but the stored PGM file is not complete: " + why); check(g.h == h && g.w == w && g.maxv == 255, "c08-pgm-header", fmt("stored header says %llux%llu max %llu", (unsigned long long) g.w, (unsigned long long) g.h, (unsigned long long) g.maxv));
    size_t hdr = d.size() - g.px.size(); check(std::equal(g.px.begin(), g.px.end(), d.begin() + (i64) hdr, [](uint8_t a, char b) { return a == (uint8_t) b; }), "c08-pgm-trailing", "the stored file is longer than header and pixels");
    float mn = v[0], mx = v[0]; for (float x : v) { mn = std::min(mn, x); mx = std::max(mx, x); }
    if (mn == mx) { for (auto b : g.px) check(b == g.px[0], "c08-pgm-constant", "a constant picture was not stored as a constant picture"); return; }
    for (size_t i = 0; i < v.size(); i++) { double e = gray_of(v[i], mn, mx); check(std::fabs(g.px[i] - e) < 1.001, "c08-pgm-pixel", fmt("pixel %zu (%g in [%g, %g]) stored as %u, linear value %.3f", i, (double) v[i], (double) mn, (double) mx, g.px[i], e)); if (v[i] == mn) check(g.px[i] == 0, "c08-pgm-pixel", fmt("the smallest value is stored as %u", g.px[i])); if (v[i] == mx) check(g.px[i] == 255, "c08-pgm-pixel", fmt("the largest value is stored as %u", g.px[i])); }
}
static void exec_c08(const Plan &p) {
    // items: pic h w values kind fmt ; each followed (by index) by item io
    auto pics = p.all("pic"), ios = p.all("io"); 
    for (size_t k = 0; k < pics.size() && k < 8; k++) {
        std::vector<float> v = picture(pics[k]), keep = v; uint16_t h, w; dims_of(pics[k], v.size(), h, w); bool wf = arg(*pics[k], 4) == 0; StreamFault f = wfault(k < ios.size() ? ios[k] : nullptr); f.crash_at = -1; bool bad = wf_any(f); if (bad) nontrivial();
        disk().faults.clear(); disk().fault("o", f); note(fmt("write %zu: %s %ux%u, ", k, wf ? "float" : "pgm", w, h) + show(f)); i64 ret = -99;
        Result q = in_code([&] { ret = wf ? write_float(v.data(), h, w, "o") : write_pgm(v.data(), h, w, "o"); });
        note(fmt("%s, result %lld, %zu bytes stored", describe(q).c_str(), (long long) ret, disk().files["o"].size()));
        die_check(q, bad, "c08-died", "the writer"); check(!memcmp(v.data(), keep.data(), v.size() * 4), "c08-image-modified", "the image was modified");
        if (!bad) check(ret == 0, "c08-undisturbed-refused", fmt("an undisturbed write reports error %lld", (long long) ret));
        if (q.o == RET && ret == 0) { count("probe.write_ok"); const std::string &d = disk().files["o"]; if (wf) check_float_file(d, h, w, v); else check_pgm_file(d, h, w, v); } else count("probe.write_failed");
        drop_handles(); forget_blocks(); sim_time(0.02);
    }
}
static std::vector<i64> gen_pic(Rng &r, bool big) { i64 h = 1 + (i64) r.below(8), w = 1 + (i64) r.below(8); if (r.chance(4)) { h = 1 + (i64) r.below(60); w = 1 + (i64) r.below(60); } (void) big; return {h, w, (i64) r.below(100000), (i64) r.below(13)}; }
static Reg rc08(Prop{"C08", [](Rng &r, Plan &p, int) { int n = 1 + (int) r.below(4); for (int i = 0; i < n; i++) { auto a = gen_pic(r, false); i64 wf = (i64) r.below(2); a.push_back(wf); i64 size = wf ? 20 + a[0] * a[1] : 10 + a[0] * a[1] * 14; p.add("pic", a); std::vector<i64> f; if (r.chance(20)) f.assign(10, 0); else gen_wfault(r, f, size, false); p.add("io", f); } },
    exec_c08, 80000, 3000000, [](int) { std::vector<Plan> v; for (i64 k = 0; k < 2; k++) for (int mode = 0; mode < 3; mode++) for (i64 o = 0; o < 180; o++) { Plan p; p.prop = "C08"; p.add("pic", {3, 4, 5, 0, k}); p.add("io", {0, mode == 0 ? 1 + o : 0, mode == 1 ? 1 + o : 0, o & 1, mode == 2 ? 1 + o % 7 : 0, 0, mode == 2 ? 1 + o : 0, mode == 2 ? 5 : 0, mode == 2 ? o : 0, 0}); v.push_back(p); }
        for (i64 k = 0; k < 2; k++) for (i64 kind = 0; kind < 13; kind++) for (i64 s = 0; s < 20; s++) { Plan p; p.prop = "C08"; p.add("pic", {1 + s % 5, 1 + s / 5, s, kind, k}); v.push_back(p); }
        static const i64 big[][2] = {{1, 65535}, {65535, 1}, {2, 40000}, {40000, 2}, {300, 301}, {256, 256}}; for (auto &b : big) for (i64 k = 0; k < 2; k++) { Plan p; p.prop = "C08"; p.add("pic", {b[0], b[1], 9, 0, k}); v.push_back(p); }
        return v; },
    "seeded pictures (sizes, value distributions from subnormal to the largest finite floats, constant pictures) written as float and PGM files over each other while opening fails, the disk fills up or fails at any byte, closing fails with lost data, and writes are split; every full-disk and write-error offset of one file of each kind; a reported success is compared with the stored bytes. Non-trivial: a fault was injected", REAL, STUB});

static bool matches(const std::vector<float> &v, uint16_t h, uint16_t w, const float *im, uint16_t gh, uint16_t gw) {
    if (gh != h || gw != w) return false; float mn = v[0], mx = v[0]; for (float x : v) { mn = std::min(mn, x); mx = std::max(mx, x); }
    for (size_t i = 0; i < v.size(); i++) { double g = (double) im[i] * 255.0; if (mn == mx ? std::fabs(im[i] - im[0]) > 1e-6 : std::fabs(g - gray_of(v[i], mn, mx)) > 1.002) return false; } return true;
}
static void exec_c09(const Plan &p) {
    auto pics = p.all("pic"), ios = p.all("io"), reads = p.all("read"); struct Ver { std::vector<float> v; uint16_t h, w; }; std::vector<Ver> could;   // pictures the file may hold now
    for (size_t k = 0; k < pics.size() && k < 6; k++) {
        Ver c; c.v = picture(pics[k]); dims_of(pics[k], c.v.size(), c.h, c.w); StreamFault f = wfault(k < ios.size() ? ios[k] : nullptr); bool bad = wf_any(f); if (bad) nontrivial();
        disk().faults.clear(); disk().fault("o", f); note(fmt("write %zu: %ux%u, ", k, c.w, c.h) + show(f)); i64 ret = -99;
        Result q = in_code([&] { ret = write_pgm(c.v.data(), c.h, c.w, "o"); }); note(fmt("%s, result %lld, %zu bytes stored", describe(q).c_str(), (long long) ret, disk().files.count("o") ? disk().files["o"].size() : 0));
        check(q.o == RET || q.o == CRASHED || (bad && q.o == EXITED && q.exit_code && q.exit_code < 256), "c09-died", "the writer " + describe(q));
        drop_handles(); forget_blocks(); take_mem_errors();
        bool sure = q.o == RET && ret == 0;
        if (sure) could.clear(); could.push_back(c);
        int nr = 0; for (auto *it : reads) {
            if (++nr > 3) break;
            LoadFault lf = load_fault(*it, 0); lf.trunc = -1; bool rf = lf.open_errno || lf.eio >= 0; if (disk().files.count("o")) { std::string d = disk().files["o"]; install(lf, "o", d); } 
            fp_t *im = nullptr; uint16_t gh = 9, gw = 9; i64 rr = -99; bounded(100000); Result z = in_code([&] { rr = read_pgm(&im, "o", 0, 0.0f, 1.0f, &gh, &gw); }); unbounded();
            if (lf.open_errno == ENOENT) { /* the missing file was simulated; the picture is still there */ }
            note(fmt("read: %s, result %lld, %ux%u", describe(z).c_str(), (long long) rr, gw, gh)); check(z.o == RET || (rf && z.o == EXITED && z.exit_code && z.exit_code < 256), "c09-died", "the reader " + describe(z));
            if (z.o == RET && rr == 0) { bool m = false; for (auto &x : could) m = m || matches(x.v, x.h, x.w, im, gh, gw); count("probe.read_back"); check(m, sure && !bad ? "c09-round-trip" : "c09-mixture", fmt("a picture of %ux%u was read back that is none of the pictures completely written%s", gw, gh, bad ? " (a fault hit the write)" : "")); free(im); }
            else { count("probe.read_refused"); check(rf || !sure, "c09-round-trip-refused", "a picture written with success is refused when read back"); }
            drop_handles(); forget_blocks();
            if (lf.open_errno == ENOENT) break;   // file removed by the simulated fault
        }
        sim_time(0.05);
    }
}
static Reg rc09(Prop{"C09", [](Rng &r, Plan &p, int) { int n = 1 + (int) r.below(4); i64 ph = 0, pw = 0; for (int i = 0; i < n; i++) { auto a = gen_pic(r, false); if (i && r.chance(50)) { a[0] = ph; a[1] = pw; } ph = a[0]; pw = a[1]; p.add("pic", a); std::vector<i64> f; if (r.chance(25)) f.assign(10, 0); else gen_wfault(r, f, 26 + a[0] * a[1], true); p.add("io", f); } p.add("read", {0, 0, 0, 0, 0, 0, 0}); if (r.chance(30)) { std::vector<i64> a; gen_load_fault(r, a, 40); a[0] = a[0] == ENOENT ? EIO : a[0]; p.add("read", a); } },
    exec_c09, 80000, 3000000, [](int) { std::vector<Plan> v; for (int old = 0; old < 3; old++) for (int mode = 0; mode < 3; mode++) for (i64 o = 0; o < 46; o++) { Plan p; p.prop = "C09"; if (old) { p.add("pic", {old == 1 ? 4 : 5, 5, 3, 0}); p.add("io", {0, 0, 0, 0, 0, 0, 0, 0, 0, 0}); } p.add("pic", {4, 5, 7, 0}); p.add("io", {0, mode == 1 ? 1 + o : 0, mode == 2 ? 1 + o : 0, 1, 1, 0, 0, 0, 0, mode == 0 ? 1 + o : 0}); p.add("read", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); } return v; },
    "seeded histories of 1-4 PGM writes of pictures to one name, each hit by nothing, a kill at any byte, a full or failing disk or a failing close, followed by reads (some disturbed); every kill/full/error offset over absent, equal-sized and larger old files; a picture that is read must be one completely written. Non-trivial: a fault hit a write", REAL, STUB});
