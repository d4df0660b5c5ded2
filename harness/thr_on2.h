// After this the code which is included next uses the scheduled primitives.
#define mutex vf_mutex
#define unique_lock vf_unique_lock
#define condition_variable vf_condition_variable
#define thread vf_thread
#define future vf_future
#define launch vf_launch
#define async vf_async
#define this_thread vf_this_thread
#define system_error vf_system_error
