pub use {perf_event_data, perf_event_open_sys};
