// Self-test of the engine: each scenario has a known verdict (the name's prefix says which).
#include "mcx.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <atomic>
#include <map>
#include <chrono>
struct S { int x=0; std::mutex m; std::condition_variable cv; bool flag=false; std::atomic<int> a{0}; };
static int glob;
thread_local int tl = 5;
int fs(){ static int v = (std::this_thread::yield(), 7); return v; }
int main(int c,char**v){
 mcx::Bounds b; b.preemptions=-1; mcx::Bounds p3; p3.preemptions=3;
 std::vector<mcx::Scenario> s;
 s.push_back({"bad-race","",[]{ S st; std::thread t([&]{st.x++;}); st.x++; t.join(); },b,b});
 s.push_back({"ok-norace","",[]{ S st; std::thread t([&]{std::lock_guard<std::mutex> l(st.m);st.x++;}); {std::lock_guard<std::mutex> l(st.m);st.x*=2; } t.join(); mcx::outcome(std::to_string(st.x)); },b,b});
 s.push_back({"bad-lostwake","",[]{ S st; std::thread t([&]{std::unique_lock<std::mutex> l(st.m); st.cv.wait(l);}); {std::lock_guard<std::mutex> l(st.m); st.flag=true;} st.cv.notify_all(); t.join(); },b,b});
 s.push_back({"ok-wake","",[]{ S st; std::thread t([&]{std::unique_lock<std::mutex> l(st.m); while(!st.flag)st.cv.wait(l);}); {std::lock_guard<std::mutex> l(st.m); st.flag=true;} st.cv.notify_all(); t.join(); },b,b});
 s.push_back({"bad-abba","",[]{ std::mutex m1,m2; std::thread t([&]{std::lock_guard<std::mutex> l(m1); std::lock_guard<std::mutex> k(m2);}); {std::lock_guard<std::mutex> l(m2); std::lock_guard<std::mutex> k(m1);} t.join(); },b,b});
 s.push_back({"ok-stdlock","",[]{ std::mutex m1,m2; auto f=[&](std::mutex&a,std::mutex&b){std::lock(a,b); a.unlock(); b.unlock();}; std::thread t([&]{f(m1,m2);}); f(m2,m1); t.join(); },p3,p3});
 s.push_back({"ok-atomic","",[]{ S st; std::thread t([&]{ int x=st.a.load(); st.a.store(x+1);}); int x=st.a.load(); st.a.store(x+1); t.join(); mcx::outcome(std::to_string(st.a.load())); },b,b});
 s.push_back({"ok-mp","",[]{ S st; std::thread t([&]{ st.x=1; st.a.store(1,std::memory_order_release);}); if(st.a.load(std::memory_order_acquire)) {mcx::outcome("seen"+std::to_string(st.x));} else mcx::outcome("no"); t.join(); },b,b});
 s.push_back({"bad-mprelaxed","",[]{ S st; std::thread t([&]{ st.x=1; st.a.store(1,std::memory_order_relaxed);}); if(st.a.load(std::memory_order_relaxed)) {mcx::outcome("seen"+std::to_string(st.x));} t.join(); },b,b});
 s.push_back({"ok-future","",[]{ std::promise<int> p; auto f=p.get_future(); std::thread t([&]{p.set_value(4);}); mcx::outcome(std::to_string(f.get())); t.join(); },b,b});
 s.push_back({"ok-exc","",[]{ std::promise<int> p; auto f=p.get_future(); std::thread t([&]{try{throw std::runtime_error("x");}catch(...){p.set_exception(std::current_exception());}}); try{f.get();}catch(std::exception&e){mcx::outcome(e.what());} t.join(); },b,b});
 s.push_back({"ok-tls","",[]{ int r=0; std::thread t([&]{tl++; r=tl;}); tl+=2; t.join(); mcx::outcome(std::to_string(r)+"/"+std::to_string(tl)+"/"+std::to_string(glob)); glob++; },b,b});
 s.push_back({"ok-static","",[]{ int r=0; std::thread t([&]{r=fs();}); int q=fs(); t.join(); mcx::outcome(std::to_string(r+q)); },b,b});
 s.push_back({"bad-uaf","",[]{ int*p=new int(3); delete p; volatile int* q=p; mcx::outcome(std::to_string(*q)); },b,b});
 s.push_back({"bad-oob","",[]{ int*p=new int[3]; volatile int* q=p; q[3]=1; },b,b});
 s.push_back({"bad-map","",[]{ std::map<int,int> m; std::mutex mu; std::thread t([&]{std::lock_guard<std::mutex> l(mu); m[1]=2;}); m[2]=3; t.join(); },b,b});
 s.push_back({"ok-sleep","",[]{ auto t0=std::chrono::system_clock::now(); std::this_thread::sleep_for(std::chrono::seconds(2)); mcx::outcome(std::to_string((std::chrono::system_clock::now()-t0).count())); },b,b});
 s.push_back({"ok-spin","",[]{ S st; std::thread t([&]{ while(!st.a.load()); }); st.a=1; t.join(); },b,b});
 s.push_back({"bad-spinforever","",[]{ S st; std::thread t([&]{ while(!st.a.load()); });  t.join(); },b,b});
 s.push_back({"ok-3x","",[]{ S st; auto f=[&]{for(int i=0;i<3;i++){std::lock_guard<std::mutex> l(st.m); st.x++;}}; std::thread t(f),u(f); f(); t.join(); u.join(); mcx::outcome(std::to_string(st.x)); },b,b});
 s.push_back({"ok-waitfor","",[]{ S st; std::unique_lock<std::mutex> l(st.m); auto r=st.cv.wait_for(l,std::chrono::seconds(1)); mcx::outcome(r==std::cv_status::timeout?"to":"no"); },b,b});
 s.push_back({"ok-once","",[]{ std::once_flag o; int n=0; auto f=[&]{std::call_once(o,[&]{n++;});}; std::thread t(f); f(); t.join(); mcx::outcome(std::to_string(n)); },b,b});
 s.push_back({"bad-segv","",[]{ volatile int*p=nullptr; *p=1; },b,b});
 s.push_back({"ok-choose","",[]{ int a=mcx::choose(3,"a"),d=mcx::choose(2,"b"); mcx::outcome(std::to_string(a*10+d)); },b,b});
 return mcx::run_main(c,v,"SELF",s);
}
