#include "common.hpp"
#include <map>
#include <set>
#include <list>
#include <any>
#include <future>
#include <semaphore>
#include <latch>
#include <barrier>
#include <shared_mutex>
#include <queue>
#include <unordered_set>
#include <algorithm>
#include <numeric>
#include <ranges>
#include <span>
#include <functional>
#include <forward_list>
#include <memory_resource>
#include <iostream>
#include <sstream>
#include <cassert>
#include <typeindex>
#include <cstring>
#include <bit>
using namespace h;
#define E(n) extern "C" void H_##n()
E(sort){ std::vector<int> v; for(int i=0;i<20;++i) v.push_back((i*7)%20); std::sort(v.begin(),v.end()); sym_check(v[3]==3,"s"); std::stable_sort(v.begin(),v.end(),std::greater<>{}); sym_check(v[0]==19,"ss"); std::ranges::sort(v); std::make_heap(v.begin(),v.end()); std::pop_heap(v.begin(),v.end()); std::nth_element(v.begin(),v.begin()+3,v.end()); std::rotate(v.begin(),v.begin()+2,v.end()); std::erase_if(v,[](int x){return x&1;}); sym_check(v.size()>5,"e");}
E(map){ std::map<int,std::string> m; for(int i=0;i<10;++i) m[i]=std::string(20,'a')+char('a'+i); m.erase(3); sym_check(m.size()==9&&m.count(4),"m"); std::multiset<int> s{3,1,2,2}; s.erase(s.find(2)); sym_check(s.size()==3,"s"); std::multimap<int,int> mm; mm.emplace(1,2); std::set<std::string> ss{"a","b"}; sym_check(ss.contains("a"),"ss"); auto n=m.extract(4); sym_check(!n.empty(),"x");}
E(umap){ std::unordered_map<std::string,int> m; for(int i=0;i<30;++i) m["k"+std::to_string(i)]=i; sym_check(m.at("k7")==7,"u"); std::unordered_set<int> s{1,2,3}; s.erase(2); sym_check(!s.contains(2),"us"); std::unordered_multimap<int,int> mm; mm.emplace(1,1); mm.emplace(1,2); sym_check(mm.count(1)==2,"mm"); m.clear(); m.reserve(100);}
E(list){ std::list<int> l{1,2,3}; l.remove(2); std::list<int> k{5}; l.splice(l.begin(),k); l.sort(); l.reverse(); l.unique(); sym_check(l.size()==3,"l"); std::forward_list<int> f{1,2}; f.push_front(0); f.sort(); std::deque<int> d; for(int i=0;i<300;++i){d.push_back(i); if(i&1) d.pop_front();} sym_check(d.size()==150,"d"); std::priority_queue<int> q; q.push(1); q.push(5); sym_check(q.top()==5,"q");}
E(func){ std::function<int(int)> f=[a=std::array<int,10>{}](int x){return x+a[0];}; auto g=f; sym_check(g(3)==3,"f"); std::any a=5; sym_check(std::any_cast<int>(a)==5,"any"); std::variant<int,std::string> v="x"; v=3; sym_check(std::visit([](auto&& x)->int{ if constexpr(std::is_same_v<std::decay_t<decltype(x)>,int>) return x; else return -1;},v)==3,"v"); try{ std::function<void()> e; e(); }catch(const std::bad_function_call&){} try{ (void)std::get<1>(v);}catch(const std::bad_variant_access&){} std::optional<int> o; try{(void)o.value();}catch(const std::bad_optional_access&){} auto b=std::bind_front([](int x,int y){return x+y;},1); sym_check(b(2)==3,"b");}
E(mtx){ std::shared_mutex m; {std::shared_lock l{m}; } {std::unique_lock l{m};} sym_check(m.try_lock(),"t"); m.unlock(); std::recursive_mutex r; std::lock_guard a{r}; std::lock_guard b{r}; std::timed_mutex t; sym_check(t.try_lock_for(std::chrono::milliseconds{1}),"tm"); t.unlock(); std::mutex x,y; {std::scoped_lock l{x,y};} std::once_flag o; int n=0; std::call_once(o,[&]{++n;}); std::call_once(o,[&]{++n;}); sym_check(n==1,"once");}
E(cva){ std::shared_mutex m; std::condition_variable_any c; bool f=false; std::thread t{[&]{std::unique_lock l{m}; f=true; c.notify_all();}}; {std::unique_lock l{m}; c.wait(l,[&]{return f;});} t.join();}
E(jthread){ std::atomic<int> n{0}; {std::jthread t{[&](std::stop_token s){ while(!s.stop_requested()) {n.fetch_add(1); std::this_thread::yield(); if (n>2) break;} }}; t.request_stop();} }
E(stopcb){ std::stop_source s; int n=0; std::stop_callback cb{s.get_token(),[&]{++n;}}; s.request_stop(); sym_check(n==1,"cb");}
E(fut){ std::promise<int> p; auto f=p.get_future(); std::thread t{[&]{p.set_value(4);}}; sym_check(f.get()==4,"f"); t.join(); }
E(async){ auto f=std::async(std::launch::async,[]{return 3;}); sym_check(f.get()==3,"a"); }
E(sem){ std::binary_semaphore s{0}; std::thread t{[&]{s.release();}}; s.acquire(); t.join(); std::counting_semaphore<5> c{1}; sym_check(c.try_acquire(),"c");}
E(latch){ std::latch l{2}; std::thread t{[&]{l.count_down();}}; l.arrive_and_wait(); t.join();}
E(barrier){ std::barrier b{2}; std::thread t{[&]{b.arrive_and_wait();}}; b.arrive_and_wait(); t.join();}
E(await){ std::atomic<int> a{0}; std::thread t{[&]{a=1; a.notify_one();}}; a.wait(0); sym_check(a==1,"w"); t.join(); }
E(await2){ std::atomic<bool> a{false}; std::thread t{[&]{a=true; a.notify_all();}}; a.wait(false); t.join(); std::atomic_flag f{}; std::thread u{[&]{f.test_and_set(); f.notify_one();}}; f.wait(false); u.join();}
E(atoms){ std::atomic<uint64_t> a{1}; a.fetch_or(2); a.fetch_and(3); a^=1; uint64_t e=2; a.compare_exchange_strong(e,7); e=7; while(!a.compare_exchange_weak(e,8)){} sym_check(a.exchange(1)==8,"x"); std::atomic<uint8_t> b{0}; b.fetch_add(1); std::atomic<int*> p{nullptr}; int z; p.store(&z); p.fetch_add(0); std::atomic_thread_fence(std::memory_order_seq_cst); std::atomic_ref r{z}; z=0; r.fetch_add(2); sym_check(z==2,"r"); struct P{int a,b;}; std::atomic<P> q{P{1,2}}; P o=q.load(); sym_check(o.b==2,"p"); q.store(P{3,4}); std::atomic_signal_fence(std::memory_order_acquire);}
E(asp){ std::atomic<std::shared_ptr<int>> a; a.store(std::make_shared<int>(4)); auto p=a.load(); sym_check(*p==4,"asp"); auto q=a.exchange(nullptr); sym_check(*q==4,"x"); std::shared_ptr<int> s=std::make_shared<int>(1); std::atomic_store(&s,std::make_shared<int>(2)); sym_check(*std::atomic_load(&s)==2,"free");}
E(shp){ struct A:std::enable_shared_from_this<A>{virtual ~A()=default;int x=1;}; struct B:A{}; std::shared_ptr<A> a=std::make_shared<B>(); auto b=std::dynamic_pointer_cast<B>(a); sym_check(!!b,"dyn"); auto w=a->weak_from_this(); std::weak_ptr<A> v=w; a.reset(); b.reset(); sym_check(v.expired(),"exp"); auto arr=std::make_shared<int[]>(5); auto u=std::make_unique<std::string>("abc"); std::shared_ptr<int> al{arr,&arr[1]}; sym_check(al.use_count()==2,"uc"); try{ A{}.shared_from_this(); }catch(const std::bad_weak_ptr&){} std::unique_ptr<int,void(*)(int*)> d{new int,[](int*p){delete p;}}; auto own=std::owner_less<>{}; (void)own(al,v);}
struct VB{virtual ~VB()=default; virtual int f(){return 1;}}; struct V1:virtual VB{int f()override{return 2;}}; struct V2:virtual VB{}; struct VD:V1,V2{};
E(rtti){ VB* p=new VD; sym_check(dynamic_cast<V2*>(p)!=nullptr&&p->f()==2,"d"); sym_check(typeid(*p)==typeid(VD),"t"); try{ V1 v; VB&b=v; (void)dynamic_cast<VD&>(b);}catch(const std::bad_cast&){} sym_check(typeid(int).hash_code()!=typeid(long).hash_code(),"h"); sym_check(std::type_index(typeid(int))!=std::type_index(typeid(char)),"ti"); delete p;}
static int cnt=0; static int& loc(){ static int x=(++cnt,5); return x;} thread_local std::vector<int> tlv; 
E(statics){ loc(); loc(); sym_check(cnt==1,"cnt"); tlv.push_back(1); std::thread t{[]{tlv.push_back(2); sym_check(tlv.size()==1,"tl");}}; t.join(); static std::vector<int> sv{1,2}; sym_check(sv.size()==2,"sv"); static thread_local std::string s{"abc"}; sym_check(s.size()==3,"tls str");}
E(str){ std::string s="hello"; s+=" world, this is long enough to be on the heap"; auto n=s.find("world"); sym_check(n==6,"f"); auto t=s.substr(6,5); sym_check(t=="world","sub"); sym_check(std::stoi("12")==12,"stoi"); s.replace(0,5,"bye"); s.insert(0,"x"); s.erase(0,1); std::string_view v=s; sym_check(v.starts_with("bye"),"sv"); s.resize(100,'c'); s.clear(); s.shrink_to_fit(); std::string u(3,'a'); std::reverse(u.begin(),u.end()); sym_check(u.compare("aaa")==0,"cmp");}
E(except){ try{ throw std::runtime_error{"x"}; }catch(const std::exception& e){ sym_check(std::string{e.what()}=="x","w");} try{ try{ throw 1;}catch(...){ std::throw_with_nested(std::logic_error{"y"});} }catch(const std::exception&e){ try{ std::rethrow_if_nested(e);}catch(int i){ sym_check(i==1,"n"); } } try{ std::vector<int> v; (void)v.at(3);}catch(const std::out_of_range&){} try{ throw std::system_error{std::make_error_code(std::errc::timed_out)}; }catch(const std::system_error&){} std::exception_ptr p=std::make_exception_ptr(std::runtime_error{"q"}); try{ std::rethrow_exception(p);}catch(const std::runtime_error&e){sym_check(e.what()[0]=='q',"q");} sym_check(std::uncaught_exceptions()==0,"u"); try { throw std::bad_alloc{}; } catch (std::exception&) {} }
E(chrono){ auto a=std::chrono::steady_clock::now(); auto b=std::chrono::system_clock::now(); (void)b; auto c=std::chrono::high_resolution_clock::now(); (void)c; std::this_thread::sleep_for(std::chrono::milliseconds{1}); std::this_thread::sleep_until(a+std::chrono::milliseconds{3}); sym_check(std::chrono::steady_clock::now()>=a,"m"); std::mutex m; std::condition_variable cv; std::unique_lock l{m}; sym_check(cv.wait_for(l,std::chrono::milliseconds{2})==std::cv_status::timeout,"t"); sym_check(!cv.wait_until(l,std::chrono::system_clock::now()+std::chrono::milliseconds{2},[]{return false;}),"t2"); auto d=std::chrono::round<std::chrono::seconds>(std::chrono::milliseconds{1500}); (void)d;}
E(ranges){ std::vector<int> v{1,2,3,4,5}; int s=0; for(int x: v|std::views::filter([](int i){return i&1;})|std::views::transform([](int i){return i*2;})|std::views::take(2)) s+=x; sym_check(s==8,"r"); s=std::accumulate(v.begin(),v.end(),0); sym_check(s==15,"a"); auto it=std::ranges::find_if(v,[](int x){return x==3;}); sym_check(*it==3,"f"); std::vector<bool> b(70); b[65]=true; sym_check(b[65],"vb"); std::span sp{v}; sym_check(sp.size()==5,"sp"); sym_check(std::ranges::any_of(v,[](int x){return x>4;}),"any"); v.reserve(20); std::ranges::copy(std::vector<int>(v),std::back_inserter(v)); }

E(rnd){ double d=3.7; sym_check((int)d==3,"d"); float f=1.5f; sym_check(f*2==3.0f,"f"); sym_check(std::abs(-3)==3,"abs"); sym_check(std::min({3,1,2})==1,"min"); unsigned __int128 x=1; x<<=70; sym_check((uint64_t)(x>>70)==1,"i128"); sym_check(std::popcount(7u)==3&&std::countl_zero(1u)==31&&std::bit_ceil(5u)==8,"bit"); long long q; sym_check(__builtin_add_overflow(1ll<<62,1ll<<62,&q),"ov"); sym_check(std::midpoint(2,4)==3,"mid"); sym_check(std::gcd(12,18)==6,"gcd");}

E(tid){ auto a=std::this_thread::get_id(); std::thread::id b; std::thread t{[&]{b=std::this_thread::get_id();}}; sym_check(t.joinable(),"j"); auto c=t.get_id(); t.join(); sym_check(a!=b&&b==c,"id"); sym_check(std::hash<std::thread::id>{}(a)!=0||true,"h"); sym_check(std::thread::hardware_concurrency()>=0,"hc"); std::thread u; u=std::thread{[]{}}; u.detach();}

E(srcloc){ sym_check(std::abs(1.5)>1,"x"); assert(cnt>=0); std::atomic<double> d{1}; d.fetch_add(1); sym_check(d==2,"ad"); std::atomic<std::chrono::nanoseconds> ns{}; ns.store(std::chrono::nanoseconds{3}); sym_check(ns.load().count()==3,"ns"); std::atomic<std::chrono::steady_clock::time_point> tp{}; tp=std::chrono::steady_clock::time_point{}; }
E(spin){ std::atomic_flag f=ATOMIC_FLAG_INIT; int n=0; auto w=[&]{ while(f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); ++n; f.clear(std::memory_order_release); }; std::thread t{w}; w(); t.join(); sym_check(n==2,"spin"); }
E(spin2){ std::atomic<bool> f{false}; std::thread t{[&]{ f.store(true);} }; while(!f.load()) {} t.join(); }
E(timedmtx){ std::timed_mutex m; m.lock(); std::thread t{[&]{ bool ok=m.try_lock_for(std::chrono::milliseconds{1}); if(ok) m.unlock(); }}; m.unlock(); t.join(); std::recursive_timed_mutex r; r.lock(); r.unlock(); std::shared_timed_mutex s; s.lock_shared(); s.unlock_shared();}
E(pkg){ std::packaged_task<int()> t{[]{return 1;}}; auto f=t.get_future(); t(); sym_check(f.wait_for(std::chrono::seconds{0})==std::future_status::ready,"r"); sym_check(f.get()==1,"v"); auto sf=std::async(std::launch::deferred,[]{return 2;}).share(); sym_check(sf.get()==2,"sf"); std::promise<void> p; auto g=p.get_future(); p.set_exception(mkerr(1)); try{ g.get(); }catch(const Err&){} }
E(tuple){ auto t=std::tuple{1,std::string{"a"},2.0}; auto [a,b,c]=t; sym_check(std::apply([](auto...x){return sizeof...(x);},t)==3,"ap"); auto m=std::make_from_tuple<std::pair<int,int>>(std::tuple{1,2}); sym_check(m.second==2,"mft"); (void)a;(void)b;(void)c; sym_check((std::strong_ordering::less)==(1<=>2),"c");}
E(qsort){ int a[]={3,1,2}; qsort(a,3,4,[](const void*x,const void*y){return *(int*)x-*(int*)y;}); sym_check(a[0]==1,"q"); char b[8]; memset(b,0,8); strcpy(b,"ab"); sym_check(strlen(b)==2&&!strcmp(b,"ab")&&memcmp(b,"ab",2)==0,"str"); memmove(b+1,b,2); sym_check(b[1]=='a',"mm"); sym_check(strncmp("abc","abd",2)==0,"n");}

E(vla){ std::array<std::function<void()>,3> f{}; int n=0; for(auto&g:f) g=[&n]{++n;}; for(auto&g:f) std::invoke(g); std::vector<std::unique_ptr<int>> v; v.push_back(std::make_unique<int>(1)); v.insert(v.begin(),std::make_unique<int>(2)); v.erase(v.begin()); sym_check(n==3&&*v[0]==1,"v"); std::vector<std::string> s{"a","b"}; s.emplace(s.begin(),"c"); s.resize(5); std::sort(s.begin(),s.end()); std::vector<std::shared_ptr<int>> w(3); std::swap(w[0],w[1]); w.assign(2,nullptr);}
E(logs){ sym_check(std::uncaught_exceptions()==0,"u"); struct G{~G(){ sym_check(std::uncaught_exceptions()==1,"in"); }}; try{ G g; throw 1; }catch(int){} }
E(lockfns){ std::mutex a,b; std::lock(a,b); a.unlock(); b.unlock(); sym_check(std::try_lock(a,b)==-1,"tl"); a.unlock(); b.unlock(); std::unique_lock l{a,std::defer_lock}; sym_check(l.try_lock(),"x"); l.unlock(); std::unique_lock k{b,std::try_to_lock}; sym_check(k.owns_lock(),"y"); std::unique_lock z{std::move(k)}; try{ l.lock(); l.lock(); }catch(const std::system_error&){} try { std::unique_lock<std::mutex> q; q.lock(); } catch(const std::system_error&){} }

E(stacktr){ std::unordered_map<std::thread::id,int> m; m[std::this_thread::get_id()]=1; sym_check(m.size()==1,"m"); std::map<std::weak_ptr<int>,int,std::owner_less<>> o; auto p=std::make_shared<int>(1); o[p]=2; sym_check(o.size()==1,"o"); std::hash<std::string_view> h; (void)h("abc"); std::hash<std::shared_ptr<int>> hp; (void)hp(p); }
int main(){}
