// M05: buffered block streams and the buffered writer
#include "cont.h"
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_istream.h>
#include <stxxl/bits/mng/buf_istream_reverse.h>
#include <stxxl/bits/mng/typed_block.h>
using namespace mc;
using cont::El; using cont::check_el;
typedef stxxl::typed_block<4096, El<1024> > Blk;       // 4 elements
typedef Blk::bid_type Bid;
typedef Blk::value_type T;
enum { B = Blk::size };
static void on_device(const std::vector<Bid>& v, const std::vector<int>& r)
{   // the raw contents, without going through any queue
    static char raw[8192]; char* p = (char*)(((uintptr_t)raw + 4095) / 4096 * 4096);
    for (size_t i = 0; i * B < r.size(); ++i)
    {
        v[i].storage->serve(p, v[i].offset, 4096, stxxl::request::READ);
        Blk* b = (Blk*)p;
        for (size_t j = 0; j < B && i * B + j < r.size(); ++j) if (r[i * B + j] >= 0) check_el((*b)[j], r[i * B + j], "device contents");
    }
}
static void streams(int nblocks, int nbmax)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    std::vector<Bid> v(nblocks);
    int alloc = choose(2);
    if (alloc) bm->new_blocks(stxxl::single_disk(0), v.begin(), v.end()); else bm->new_blocks(stxxl::striping(), v.begin(), v.end());
    if (choose(2)) std::reverse(v.begin(), v.end());        // descending offsets
    int nb = choose(nbmax);
    std::vector<int> r; int ctr = 1, total = nblocks * B;
    bool partial = choose(2);
    {
        stxxl::buf_ostream<Blk, std::vector<Bid>::iterator> o(v.begin(), nb);
        int stop = partial ? total - 1 - choose(B - 1) : total;
        for (int i = 0; i < stop; ++i)
        {
            transition();
            switch (i % 3)
            {
            case 0: o << T(ctr); break;
            case 1: o.current() = T(ctr); ++o; break;
            case 2: *o = T(ctr); ++o; break;
            }
            r.push_back(ctr++);
        }
        if (partial)
        {
            if (choose(2)) { o.fill(T(7)); while ((int)r.size() < total) r.push_back(7); }
            else { o.flush(); while ((int)r.size() < total) r.push_back(-1); }
        }
    }
    on_device(v, r);
    int mode = choose(4), ni = 1 + choose(5);
    if (mode < 2)
    {
        stxxl::buf_istream<Blk, std::vector<Bid>::iterator> in(v.begin(), v.end(), ni);
        int stop = mode ? choose(total) : total;         // 1: destroyed early
        for (int i = 0; i < stop; ++i)
        {
            transition();
            if (i % B == 0 && r[i] >= 0) check_el(in.block()[0], r[i], "block()");
            if (i % B == 0 && r[i] >= 0 && deviate(2)) { for (int j = 0; j < B; ++j) if (r[i + j] >= 0) check_el(in.block()[j], r[i + j], "block()"); in.next_block(); i += B - 1; continue; }
            T x(0);
            switch (i % 3)
            {
            case 0: in >> x; break;
            case 1: x = in.current(); ++in; break;
            case 2: x = *in; ++in; break;
            }
            if (r[i] >= 0) check_el(x, r[i], "forward");
        }
    }
    else
    {
        stxxl::buf_istream_reverse<Blk, std::vector<Bid>::iterator> in(v.begin(), v.end(), ni);
        int stop = mode == 3 ? choose(total) : total;
        for (int i = 0; i < stop; ++i)
        {
            transition();
            T x(0);
            switch (i % 3)
            {
            case 0: in >> x; break;
            case 1: x = in.current(); ++in; break;
            case 2: x = *in; ++in; break;
            }
            if (r[total - 1 - i] >= 0) check_el(x, r[total - 1 - i], "backward");
        }
    }
    bm->delete_blocks(v.begin(), v.end());
    uint64_t h = mix(nblocks * 64 + nb * 8 + mode, ni * 4 + alloc * 2 + partial); state(h); outcome(hash_seq(r, h)); if (nblocks > 2) nontrivial();
}
// the writer alone: any order of target blocks, batch sizes, flushes in between
static void writer(int nblocks, int bmax, int batchmax)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    std::vector<Bid> v(nblocks);
    bm->new_blocks(stxxl::striping(), v.begin(), v.end());
    int nb = choose(bmax + 1), batch = choose(batchmax + 1);
    MC_NOTE("buffers " << nb << " batch " << batch);
    std::vector<int> r(nblocks * B, -1); int ctr = 1;
    std::vector<int> left; for (int i = 0; i < nblocks; ++i) left.push_back(i);
    {
        stxxl::buffered_writer<Blk> w(nb, batch);
        Blk* b = w.get_free_block();
        for (int i = 0; i < nblocks; ++i)
        {
            int c = left.size() > 1 ? choose(2) * (int)(left.size() - 1) : 0, t = left[c]; left.erase(left.begin() + c);
            for (int j = 0; j < B; ++j) { (*b)[j] = T(ctr); r[t * B + j] = ctr++; }
            int fl = deviate(3);
            if (fl == 1) { w.flush(); MC_NOTE("flush holding a filled block"); std::vector<int> q(r); for (int j = 0; j < B; ++j) q[t * B + j] = -1; on_device(v, q); }
            MC_NOTE("write block " << t);
            b = w.write(b, v[t]);
            transition();
            if (fl == 2) { MC_NOTE("flush, go on with the block held"); w.flush(); on_device(v, r); }
        }
        int e = choose(2);
        if (e) { w.flush(); on_device(v, r); }
    }
    on_device(v, r);
    bm->delete_blocks(v.begin(), v.end());
    uint64_t h = mix(nblocks * 64 + nb * 8 + batch, hash_seq(r)); state(h); outcome(h); if (nblocks > std::max(2, nb)) nontrivial();
}
struct H : Harness
{
    const char* id() { return "M05"; }
    void init() { cont::setup(2); }
    std::string rule() { return "streams of 1-6 blocks on one or two disks in ascending or descending offset, full, padded or flushed within a block; all buffer counts 0-4, all access forms, forward and backward readers read to the end or destroyed after any number of elements; writer alone with all buffer counts, batch sizes, target orders and interposed flushes; lazy/eager I/O and preemption-bounded schedules; non-trivial: more blocks than buffers"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        for (int n = 1; n <= (th ? 6 : 5); ++n)
        {
            cont::family(out, "streams.n" + std::to_string(n), [=](int d) { cont::Scope sc; streams(n, d); sc.finish(); }, 5, 5, n <= (th ? 3 : 2) ? (th ? 4 : 2) : 0, 1, 1, 2);
            cont::family(out, "writer.n" + std::to_string(n), [=](int d) { cont::Scope sc; writer(n, d - 1, 5); sc.finish(); }, 5, 5, n <= (th ? 4 : 3) ? (th || n < 3 ? 4 : 3) : 0, 1, 1, 2);
        }
    }
};
MC_MAIN(H)
