// Cooperative tasks under a seeded scheduler. A task gives up control only inside sched_point(),
// which the simulated number types call at every arithmetic operation.
#pragma once
#include "dst.hpp"
#include <exception>
#include <memory>

namespace dst {

extern "C" void dst_switch( void ** save_sp, void * load_sp );
#ifdef DST_CORO_IMPL
asm( R"(
.text
.globl dst_switch
.type dst_switch,@function
dst_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size dst_switch,.-dst_switch
.section .note.GNU-stack,"",@progbits
.text
)" );
#endif

class Sched;
struct Points           // what happens at arithmetic operations; one instance, the current run's
{
    Sched * sched = nullptr;
    u64 ops = 0;                                // operations executed since reset
    u64 budget = ~0ull;                         // operations left until hook()
    std::function<void()> hook;                 // called when the budget is used up; may set a new budget
    bool div0 = false;
};
inline Points & points() { static Points p; return p; }
inline void sched_point() { Points & p = points(); ++p.ops; if ( p.budget != ~0ull && p.budget-- == 0 ) { p.budget = ~0ull; if ( p.hook ) { auto h = p.hook; h(); } } }
inline void reset_points() { points() = Points{}; }

class Sched
{
public:
    struct Task { std::function<void()> fn; std::unique_ptr<char[]> stack; void * sp = nullptr; bool started = false, done = false, kill = false; std::exception_ptr ex; u64 ops = 0; };
    explicit Sched( Ctx & c ) : cx( c ) {}
    int spawn( std::function<void()> fn )
    {
        auto t = std::make_unique<Task>(); t->fn = std::move( fn ); t->stack.reset( new char[ kStack ] );
        tasks.push_back( std::move( t ) ); return (int) tasks.size() - 1;
    }
    // run all tasks to completion; before each slice, `before` may inject faults
    void run( u64 max_gap, std::function<void( Sched & )> before = {} )
    {
        Points & p = points(); p.sched = this; p.hook = [this]{ this->yield(); };
        for (;;)
        {
            std::vector<int> ready; for ( size_t i = 0; i < tasks.size(); ++i ) if ( !tasks[i]->done && !tasks[i]->kill ) ready.push_back( (int) i );
            if ( ready.empty() ) break;
            if ( before ) before( *this );
            int t = ready[ cx.draw( ready.size() ) ];
            u64 gap = ready.size() > 1 ? cx.logu( max_gap ) : ~0ull - 1;
            if ( gap == max_gap ) gap = ~0ull - 1;
            cx.cover( (u64) t * 1000003 + gap ); cx.h( (u64) t * 1000003 + gap ); ++switches;
            cx.note( "  schedule: task %d runs for %s%llu operations", t, gap > 1u << 30 ? "all remaining of at most " : "", (unsigned long long) ( gap > 1u << 30 ? 0 : gap + 1 ) );
            resume( t, gap );
            if ( tasks[t]->ex ) { auto e = tasks[t]->ex; tasks[t]->ex = nullptr; p.budget = ~0ull; p.hook = {}; std::rethrow_exception( e ); }
        }
        p.budget = ~0ull; p.hook = {}; p.sched = nullptr;
    }
    void kill( int t ) { tasks[t]->kill = true; }
    bool finished( int t ) const { return tasks[t]->done; }
    bool started( int t ) const { return tasks[t]->started; }
    size_t size() const { return tasks.size(); }
    u64 switches = 0;
    // a killed task stops for good where it is; only when the scheduler goes away, after all is judged, does it run on to release what it holds
    ~Sched() { Points & p = points(); p.hook = {}; p.budget = ~0ull; for ( auto & t : tasks ) if ( t->started && !t->done ) resume_( *t ); }

private:
    static constexpr size_t kStack = 128 * 1024;
    static void entry() { Sched * s = points().sched; s->body(); }
    void body()
    {
        Task * t = cur;
        try { t->fn(); }
        catch ( ... ) { t->ex = std::current_exception(); }
        t->done = true; points().budget = ~0ull;
        dst_switch( &t->sp, main_sp );
        __builtin_unreachable();
    }
    void resume( int i, u64 gap ) { points().budget = gap; resume_( *tasks[i] ); points().budget = ~0ull; }
    void resume_( Task & t )
    {
        points().sched = this; cur = &t;
        if ( !t.started )
        {
            t.started = true;
            char * top = t.stack.get() + kStack; top -= (size_t) top & 15;
            void ** sp = (void **) top; *--sp = nullptr; *--sp = (void *) &Sched::entry; for ( int k = 0; k < 6; ++k ) *--sp = nullptr;
            t.sp = sp;
        }
        dst_switch( &main_sp, t.sp ); cur = nullptr;
    }
    void yield()
    {
        Task * t = cur; if ( !t ) return;
        dst_switch( &t->sp, main_sp );
    }
    Ctx & cx; std::vector<std::unique_ptr<Task>> tasks; Task * cur = nullptr; void * main_sp = nullptr;
};

// Run fn, abandoning it for good after `budget` arithmetic operations; true if it was abandoned.
// fn must not own memory. (No exception is involved: the code under test may well be noexcept.)
class Abandon
{
public:
    static bool run( u64 budget, std::function<void()> f )
    {
        static std::unique_ptr<char[]> stack( new char[ kStack ] ); Points & p = points(); fn() = std::move( f ); died() = true; error() = nullptr;
        char * top = stack.get() + kStack; top -= (size_t) top & 15; void ** sp = (void **) top; *--sp = nullptr; *--sp = (void *) &entry; for ( int k = 0; k < 6; ++k ) *--sp = nullptr;
        p.hook = []{ void * gone; dst_switch( &gone, main_sp() ); }; p.budget = budget;
        dst_switch( &main_sp(), sp ); p.budget = ~0ull; p.hook = {};
        if ( error() ) std::rethrow_exception( error() ); return died();
    }
private:
    static constexpr size_t kStack = 128 * 1024;
    static std::function<void()> & fn() { static std::function<void()> f; return f; }
    static bool & died() { static bool d; return d; }
    static std::exception_ptr & error() { static std::exception_ptr e; return e; }
    static void *& main_sp() { static void * s; return s; }
    static void entry() { try { fn()(); } catch ( ... ) { error() = std::current_exception(); } died() = false; points().budget = ~0ull; void * gone; dst_switch( &gone, main_sp() ); __builtin_unreachable(); }
};

} // namespace dst
