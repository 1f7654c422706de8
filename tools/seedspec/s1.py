import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
I='include/stxxl/bits/'
seed('stack-leak', 'C04', [(I+'containers/stack.h', '''            wait_all(requests.begin(), blocks_per_page);

            block_manager::get_instance()->delete_blocks(bids.end() - blocks_per_page, bids.end());
            bids.resize(bids.size() - blocks_per_page);

            return;''', '''            wait_all(requests.begin(), blocks_per_page);

            // blocks still referenced by a page that is kept need not be released twice
            block_manager::get_instance()->delete_blocks(bids.end() - STXXL_MIN<unsigned_type>(blocks_per_page, bids.size() / 2), bids.end());
            bids.resize(bids.size() - blocks_per_page);

            return;''')], '''
#include <stxxl/stack>
int main()
{
    disks();
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    typedef stxxl::STACK_GENERATOR<int, stxxl::external, stxxl::normal, 2, 4096>::result S;
    stxxl::uint64 before = bm->get_current_allocation();
    {
        S s;
        for (int r = 0; r < 4; ++r) { for (int i = 0; i < 10 * 1024; ++i) s.push(i); for (int i = 10 * 1024; i-- > 0; ) { REQUIRE(s.top() == i); s.pop(); } }
        REQUIRE(s.empty());
    }
    REQUIRE(bm->get_current_allocation() == before);
    return 0;
}
''', 'popping a multi-block page back when it is the last external page', 'part of the blocks of the last page are never returned to the block manager')
seed('queue-early-delete', 'C05', [(I+'containers/queue.h', '''            front_element = front_block->begin();
            req->wait();

            bm->delete_block(bids.front());
            bids.pop_front();
            return;''', '''            front_element = front_block->begin();
            // the block is no longer needed once its read request has been issued
            bm->delete_block(bids.front());
            bids.pop_front();

            req->wait();
            return;''')], '''
#include <stxxl/queue>
int main()
{
    disks();
    // no prefetching: the front block is read when it is needed
    stxxl::queue<int, 1 << 20> q(4, 0, 0);
    const int n = 10 * (1 << 18);
    for (int i = 0; i < n; ++i) q.push(i);
    for (int i = 0; i < n; ++i) { REQUIRE(q.front() == i); q.pop(); }
    return 0;
}
''', 'a front block is fetched by a read still outstanding when its block is returned to the disk allocator (no prefetch hit)', 'the queue delivers the contents of a freed, possibly reused block')
seed('deque-resize-wrap', 'C06', [(I+'containers/deque.h', '''                m_vector.resize(2 * n);
                if (m_begin > m_end)
                {''', '''                m_vector.resize(2 * n);
                if (m_begin > m_end && m_end > 0)
                {''')], '''
#include <stxxl/deque>
int main()
{
    disks();
    typedef stxxl::deque<int> D;
    D d; int cap = STXXL_DEFAULT_BLOCK_SIZE(int) / sizeof(int);
    for (int i = 0; i < 5; ++i) d.push_front(i);      // wrapped, the end is position 0
    d.resize(cap + 10);
    for (int i = 0; i < 5; ++i) REQUIRE(d[i] == 4 - i);
    REQUIRE(d.end() - d.begin() == cap + 10);
    d.push_back(77);
    REQUIRE(d.back() == 77 && d[cap + 10] == 77 && d.size() == (size_t)cap + 11);
    return 0;
}
''', 'growing resize of a deque whose elements end exactly at the end of the circular array', 'the elements at the front are not moved to the new end of the array')
seed('btree-fuse-iter', 'C08', [(I+'containers/btree/leaf.h', '''        iterators2fix.clear();
        m_btree->m_iterator_map.find(src.my_bid(), 0, src_size, iterators2fix);''', '''        iterators2fix.clear();
        m_btree->m_iterator_map.find(src.my_bid(), 0, min_nelements() - 2, iterators2fix);''')], '''
#include <stxxl/map>
struct cmp : std::less<int> { static int max_value() { return 0x7fffffff; } };
int main()
{
    disks();
    typedef stxxl::map<int, int, cmp, 4096, 4096> M;
    for (int step = 2; step < 9; ++step)
        for (int back = 0; back < 2; ++back)
        {
            M m(M::node_block_type::raw_size * 8, M::leaf_block_type::raw_size * 8);
            std::vector<M::iterator> its; std::vector<int> keys;
            for (int i = 0; i < 4000; ++i) m[i] = i * 3;
            for (int i = 0; i < 4000; ++i) if (i % step == 0) { its.push_back(m.find(i)); keys.push_back(i); }
            for (int i = 0; i < 4000; ++i) { int k = back ? 3999 - i : i; if (k % step) m.erase(k); }
            for (size_t i = 0; i < its.size(); ++i) REQUIRE(its[i]->first == keys[i] && its[i]->second == keys[i] * 3);
        }
    return 0;
}
''', 'an iterator standing on the last element of a leaf when that leaf is fused into its successor', 'iterators of surviving elements dangle after an erase')
seed('pq-ext-current', 'C10', [(I+'containers/pq_ext_merger.h', '''        unsigned_type first_size = (unsigned_type)(segment_size % block_type::size);
        if (first_size == 0)
        {
            first_size = block_type::size;
            --nblocks;
        }

        // allocate blocks
        block_manager* bm = block_manager::get_instance();
        bid_container_type bids(nblocks);
        bm->new_blocks(alloc_strategy(), bids.begin(), bids.end());
        block_type* first_block = new block_type;

        another_merger.multi_merge(''', '''        unsigned_type first_size = (unsigned_type)(segment_size % block_type::size);
        if (first_size == 0)
        {
            first_size = block_type::size;
            nblocks -= (nblocks != 1);
        }

        // allocate blocks
        block_manager* bm = block_manager::get_instance();
        bid_container_type bids(nblocks);
        bm->new_blocks(alloc_strategy(), bids.begin(), bids.end());
        block_type* first_block = new block_type;

        another_merger.multi_merge(''')], '''
#include <stxxl/priority_queue>
#include <set>
struct R { int k; char pad[1020]; R() { } R(int x) : k(x) { } };
struct C { bool operator () (const R& a, const R& b) const { return a.k > b.k; } R min_value() const { return R(0x7fffffff); } };
int main()
{
    disks();
    typedef stxxl::priority_queue<stxxl::priority_queue_config<R, C, 4, 6, 4, 1, 4096, 2, 2> > PQ;
    for (int n = 50; n < 130; n += 10)
        for (int p = 0; p <= n; ++p)
        {
            PQ q(8 * 4096, 8 * 4096); std::multiset<int> r;
            for (int i = 0; i < n; ++i) { int k = 500 + i * 31 % 97; q.push(R(k)); r.insert(k); }
            for (int i = 0; i < p; ++i) { REQUIRE(q.top().k == *r.begin()); q.pop(); r.erase(r.begin()); }
            for (int i = 0; i < 60; ++i) { int k = 450 + i * 37 % 150; q.push(R(k)); r.insert(k); }
            while (!q.empty()) { REQUIRE(!r.empty() && q.top().k == *r.begin()); q.pop(); r.erase(r.begin()); }
            REQUIRE(r.empty());
        }
    return 0;
}
''', 'a merged segment that fills exactly one block', 'an additional block of sentinels is appended: its elements appear or the size is wrong')
seed('vector-clear-slots', 'C01', [(I+'containers/vector.h', '''        m_page_to_slot.clear();
        while (!m_free_slots.empty())
            m_free_slots.pop();

        for (unsigned_type i = 0; i < numpages(); ++i)
            m_free_slots.push(i);
    }''', '''        m_page_to_slot.clear();

        // return all slots to the free list
        for (unsigned_type i = m_free_slots.size() / 2; i < numpages(); ++i)
            m_free_slots.push(i);
    }''')], '''
#include <stxxl/vector>
int main()
{
    disks();
    typedef stxxl::vector<int, 1, stxxl::lru_pager<4>, 4096> V;
    V v;
    for (int i = 0; i < 2 * 1024; ++i) v.push_back(i);    // two of four pages in use
    v.clear();
    for (int i = 0; i < 12 * 1024; ++i) v.push_back(i);
    for (int i = 0; i < 12 * 1024; ++i) REQUIRE(v[i] == i);
    return 0;
}
''', 'clear() while only a part of the cached pages is in use, then growing again', 'two pages share one cache slot and overwrite each other')
