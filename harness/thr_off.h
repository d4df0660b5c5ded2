// The code which is included next uses the real names again.
#undef mutex
#undef unique_lock
#undef condition_variable
#undef thread
#undef future
#undef async
#undef this_thread
#undef launch
#undef system_error
