// The simulated client: editor text model, message bookkeeping, and execution of a scenario against the real server.
#pragma once
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "nlohmann/json.hpp"
#include "rt.h"

using json = nlohmann::json;

// ---- reference model of an editor document (independent of the server's implementation) ------------------------
std::u16string to_u16(const std::string& utf8);
std::string to_u8(const std::u16string& s);
struct Pos
{
    size_t line, ch;
};
struct TextModel
{
    std::u16string t;
    // offsets of the line starts: a line ends at LF, CRLF or CR
    std::vector<size_t> lines() const;
    size_t offset(Pos p) const;
    size_t line_len(size_t line) const; // without its end
    void replace(Pos a, Pos b, const std::u16string& s);
};

struct Doc
{
    bool open = false;
    TextModel text;
    int version = 0;
    int rev = 0;
};

struct Event
{
    uint64_t step;
    char dir; // 's' sent, 'r' received, 'n' note
    std::string what;
    json msg;
};

struct Violation
{
    std::string cls, detail;
};

struct DapSession
{
    int id = 0;
    int seq = 0;
    std::vector<json> in; // everything received in this session
    std::map<int, json> responses;
    std::map<int, std::string> pending; // seq -> command
    int64_t last_seq = 0;
    int bye = 0; // number of the disconnect request
    bool over = false; // the session was closed
    int launched = 0;
    int stops = 0, exited = 0, terminated = 0, initialized = 0;
    std::vector<uint64_t> stop_steps;
};

struct Sim
{
    json sc;
    std::vector<Event> hist;
    std::vector<Violation> viol;
    std::map<std::string, Doc> docs; // by uri
    std::map<std::string, json> diags; // last published diagnostics by uri
    std::map<std::string, json> responses; // by id text
    std::map<std::string, json> requests; // sent, by id text
    std::map<std::string, int> response_count;
    std::map<int, DapSession> dap;
    std::vector<json> show_messages;
    int notes = 0; // notifications about documents sent so far
    json obs = json::object();
    json settings = json::object();
    int next_id = 1;
    int exit_code = -1;
    bool server_done = false;
    bool eof_sent = false;
    bool exit_sent = false, shutdown_sent = false, clean_end = false;
    uint64_t told_us = 0;
    int clients_running = 0;
    std::string out_buf; // undecoded output bytes
    std::string out_all; // everything (only if keep_raw)
    bool keep_raw = false;
    size_t frames = 0;
    std::map<std::string, int> fault_fired;
    std::map<std::string, int> probes; // "this was reached" counters
    std::set<std::string> forget; // ids whose responses are not expected
    int event_obj = 0; // wake object: something arrived
    bool expect_broken_output = false;
    int config_mode = 0; // 0 answer, 1 never answer, 2 error answer, 3 answer later (before the next settle)
    std::vector<json> held_conf;
    void release_conf();

    void run(); // runs the whole scenario, fills everything above
    void server_main();
    void client_main();
    void do_op(const json& op);
    void on_bytes(const char* p, size_t n);
    void on_message(const json& m);
    void on_dap(int session, const json& m);
    void violation(const std::string& cls, const std::string& detail);
    void missing(const std::string& cls, const std::string& detail);
    void send(const json& m, bool now = false);
    void send_raw(const std::string& bytes, bool now = false);
    std::map<std::string, int> may_ids; // ids of malformed requests
    std::map<std::pair<int, int>, int> bad_seqs; // (session, seq) of malformed debug requests
    std::string make_frame(const json& m);
    std::deque<std::string> send_q;
    bool sending = false;
    std::vector<std::pair<int, int>> pieces; // how sent bytes are split: size, delay after it
    std::vector<std::pair<std::string, std::string>> headers; // extra headers before and after Content-Length
    size_t piece_i = 0, frame_i = 0, frame_n = 0;
    std::pair<size_t, size_t> pad { 0, 0 };
    int json_style = 0;
    std::string send_request(const std::string& method, json params);
    void send_notify(const std::string& method, json params);
    bool wait_for(const std::function<bool()>& pred);
    void settle();
    void note(const std::string& what, json m = nullptr);
    long long dap_wire(int session);
    int dap_of_wire(const std::string& id);
    int dap_send(int session, const std::string& cmd, json args);
    void dap_dispose(int session);
    bool dap_wait_response(int session, int seq);
    void trace(const json& op);
    json result();
};

extern Sim* g_sim;
std::string frame(const std::string& payload);
json final_diags(const Sim& s);
