#include "events.h"
SCENARIO(single_auto_sequential, 60, vrt::NO_TSAN) { ev::Seq<asyncpp::single_consumer_auto_reset_event>::run(); }
SCENARIO(multi_auto_sequential, 90, vrt::NO_TSAN) { ev::Seq<asyncpp::multi_consumer_auto_reset_event>::run(); }
SCENARIO(single_auto_concurrent, 90) { ev::Conc<asyncpp::single_consumer_auto_reset_event>::run(); }
SCENARIO(multi_auto_concurrent, 120) { ev::Conc<asyncpp::multi_consumer_auto_reset_event>::run(); }
SCENARIO(many_waiters, 1, vrt::NO_TSAN) { ev::Seq<asyncpp::multi_consumer_auto_reset_event>::run_bulk(); }
SCENARIO(polled_single, 15) { ev::polled<asyncpp::single_consumer_auto_reset_event>(); }
SCENARIO(polled_multi, 15) { ev::polled<asyncpp::multi_consumer_auto_reset_event>(); }
SCENARIO(owned_single, 15) { ev::owned<asyncpp::single_consumer_auto_reset_event>(); }
SCENARIO(owned_multi, 15) { ev::owned<asyncpp::multi_consumer_auto_reset_event>(); }
