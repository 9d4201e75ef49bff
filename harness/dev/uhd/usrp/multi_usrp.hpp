// Stand-in for the UHD API used by single- and multi-channel streaming; implemented by the harness.
#pragma once
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
namespace uhd {
struct device_addr_t { std::string s; device_addr_t(const std::string& x = "") : s(x) {} device_addr_t(const char* x) : s(x) {} };
struct tune_request_t { double target_freq; tune_request_t(double f = 0) : target_freq(f) {} tune_request_t(double f, double) : target_freq(f) {} };
struct tune_result_t { double actual_rf_freq = 0; };
struct meta_range_t { double a, b; double start() const { return a; } double stop() const { return b; } };
typedef meta_range_t freq_range_t; typedef meta_range_t gain_range_t;
struct time_spec_t { double t; time_spec_t(double x = 0) : t(x) {} long long get_full_secs() const { return (long long)t; } double get_frac_secs() const { return t - (long long)t; } double get_real_secs() const { return t; } bool operator==(const time_spec_t& o) const { return t == o.t; } bool operator!=(const time_spec_t& o) const { return t != o.t; } };
struct stream_args_t { std::string cpu_format, otw_format; std::vector<size_t> channels; stream_args_t(const std::string& c = "", const std::string& o = "") : cpu_format(c), otw_format(o) {} };
struct stream_cmd_t { enum stream_mode_t { STREAM_MODE_START_CONTINUOUS = 'a', STREAM_MODE_STOP_CONTINUOUS = 'o', STREAM_MODE_NUM_SAMPS_AND_DONE = 'd', STREAM_MODE_NUM_SAMPS_AND_MORE = 'm' } stream_mode; uint64_t num_samps = 0; bool stream_now = true; time_spec_t time_spec; stream_cmd_t(stream_mode_t m) : stream_mode(m) {} };
struct rx_metadata_t { enum error_code_t { ERROR_CODE_NONE = 0, ERROR_CODE_TIMEOUT = 1, ERROR_CODE_LATE_COMMAND = 2, ERROR_CODE_BROKEN_CHAIN = 4, ERROR_CODE_OVERFLOW = 8, ERROR_CODE_ALIGNMENT = 0xc, ERROR_CODE_BAD_PACKET = 0xf };
    bool has_time_spec = false, more_fragments = false, start_of_burst = false, end_of_burst = false, out_of_sequence = false; time_spec_t time_spec; size_t fragment_offset = 0; error_code_t error_code = ERROR_CODE_NONE; std::string strerror() const { return "error"; } void reset() { *this = rx_metadata_t(); } };
struct tx_metadata_t { bool has_time_spec = false, start_of_burst = false, end_of_burst = false; time_spec_t time_spec; };
struct async_metadata_t { size_t channel = 0; bool has_time_spec = false; time_spec_t time_spec; enum event_code_t { EVENT_CODE_BURST_ACK = 1, EVENT_CODE_UNDERFLOW = 2, EVENT_CODE_SEQ_ERROR = 4, EVENT_CODE_TIME_ERROR = 8, EVENT_CODE_UNDERFLOW_IN_PACKET = 0x10, EVENT_CODE_SEQ_ERROR_IN_BURST = 0x20, EVENT_CODE_USER_PAYLOAD = 0x40 } event_code = EVENT_CODE_BURST_ACK; };
template <class T> class ref_vector { std::vector<T> v; public: // of pointers: one, or those of a container
    template <class P> ref_vector(P* p) : v(1, (T)p) {}
    template <class R, class = decltype(std::declval<const R&>().begin())> ref_vector(const R& r) { for (auto p : r) v.push_back((T)p); }
    T operator[](size_t i) const { return v[i]; } size_t size() const { return v.size(); } };
struct rx_streamer { typedef std::shared_ptr<rx_streamer> sptr; typedef ref_vector<void*> buffs_type; ~rx_streamer();
    size_t get_num_channels() const; size_t get_max_num_samps() const; size_t recv(const buffs_type& b, size_t n, rx_metadata_t& md, double timeout = 0.1, bool one_packet = false); void issue_stream_cmd(const stream_cmd_t& c); };
struct tx_streamer { typedef std::shared_ptr<tx_streamer> sptr; typedef ref_vector<const void*> buffs_type; ~tx_streamer();
    size_t get_num_channels() const; size_t get_max_num_samps() const; size_t send(const buffs_type& b, size_t n, const tx_metadata_t& md, double timeout = 0.1); bool recv_async_msg(async_metadata_t& md, double timeout = 0.1); };
namespace usrp { struct multi_usrp { typedef std::shared_ptr<multi_usrp> sptr; static sptr make(const device_addr_t&); ~multi_usrp();
    size_t get_rx_num_channels(); size_t get_tx_num_channels(); std::string get_mboard_name(size_t = 0) { return "m"; } std::string get_pp_string() { return "pp"; }
    void set_rx_rate(double, size_t = ~size_t(0)); double get_rx_rate(size_t = 0); tune_result_t set_rx_freq(const tune_request_t&, size_t = 0); freq_range_t get_rx_freq_range(size_t = 0); void set_rx_gain(double, size_t = 0); gain_range_t get_rx_gain_range(size_t = 0); void set_rx_bandwidth(double, size_t = 0); double get_rx_freq(size_t = 0); double get_rx_gain(size_t = 0);
    void set_tx_rate(double, size_t = ~size_t(0)); double get_tx_rate(size_t = 0); tune_result_t set_tx_freq(const tune_request_t&, size_t = 0); freq_range_t get_tx_freq_range(size_t = 0); void set_tx_gain(double, size_t = 0); gain_range_t get_tx_gain_range(size_t = 0); void set_tx_bandwidth(double, size_t = 0); double get_tx_freq(size_t = 0); double get_tx_gain(size_t = 0);
    rx_streamer::sptr get_rx_stream(const stream_args_t&); tx_streamer::sptr get_tx_stream(const stream_args_t&);
    time_spec_t get_time_last_pps(size_t = 0) { return time_spec_t(0.0); } void set_time_next_pps(const time_spec_t&, size_t = 0) {} }; }
inline bool set_thread_priority_safe(float = 0.5f, bool = true) { return true; }
}
