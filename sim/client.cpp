#include "client.h"

static std::string raw_bytes(const std::string& s);

#include <functional>
#include <algorithm>
#include <cstring>

int hlasm_server_main(int argc, char** argv);

Sim* g_sim = nullptr;

std::u16string to_u16(const std::string& s)
{
    std::u16string r;
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = (unsigned char)s[i];
        uint32_t cp;
        int n;
        if (c < 0x80)
            cp = c, n = 1;
        else if (c < 0xE0)
            cp = c & 31, n = 2;
        else if (c < 0xF0)
            cp = c & 15, n = 3;
        else
            cp = c & 7, n = 4;
        for (int k = 1; k < n && i + k < s.size(); ++k)
            cp = cp << 6 | ((unsigned char)s[i + k] & 63);
        i += n;
        if (cp >= 0x10000)
        {
            cp -= 0x10000;
            r.push_back((char16_t)(0xD800 + (cp >> 10)));
            r.push_back((char16_t)(0xDC00 + (cp & 1023)));
        }
        else
            r.push_back((char16_t)cp);
    }
    return r;
}
std::string to_u8(const std::u16string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t cp = s[i];
        if (cp >= 0xD800 && cp < 0xDC00 && i + 1 < s.size())
            cp = 0x10000 + ((cp - 0xD800) << 10) + (s[++i] - 0xDC00);
        if (cp < 0x80)
            r.push_back((char)cp);
        else if (cp < 0x800)
        {
            r.push_back((char)(0xC0 | cp >> 6));
            r.push_back((char)(0x80 | (cp & 63)));
        }
        else if (cp < 0x10000)
        {
            r.push_back((char)(0xE0 | cp >> 12));
            r.push_back((char)(0x80 | (cp >> 6 & 63)));
            r.push_back((char)(0x80 | (cp & 63)));
        }
        else
        {
            r.push_back((char)(0xF0 | cp >> 18));
            r.push_back((char)(0x80 | (cp >> 12 & 63)));
            r.push_back((char)(0x80 | (cp >> 6 & 63)));
            r.push_back((char)(0x80 | (cp & 63)));
        }
    }
    return r;
}
std::vector<size_t> TextModel::lines() const
{
    std::vector<size_t> r { 0 };
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (t[i] == u'\n')
            r.push_back(i + 1);
        else if (t[i] == u'\r' && !(i + 1 < t.size() && t[i + 1] == u'\n'))
            r.push_back(i + 1);
    }
    return r;
}
size_t TextModel::line_len(size_t line) const
{
    auto l = lines();
    size_t b = l[line];
    size_t e = b;
    while (e < t.size() && t[e] != u'\n' && t[e] != u'\r')
        ++e;
    return e - b;
}
size_t TextModel::offset(Pos p) const
{
    auto l = lines();
    if (p.line >= l.size())
        return t.size();
    return l[p.line] + std::min(p.ch, line_len(p.line));
}
void TextModel::replace(Pos a, Pos b, const std::u16string& s)
{
    size_t x = offset(a), y = offset(b);
    t.replace(x, y - x, s);
}

std::string uri_of(const std::string& path)
{
    std::string r = "file://";
    for (unsigned char c : path)
    {
        if (isalnum(c) || strchr("/-._~", c))
            r += (char)c;
        else
        {
            char b[4];
            snprintf(b, sizeof b, "%%%02X", c);
            r += b;
        }
    }
    return r;
}
std::string path_of(const std::string& uri)
{
    std::string r;
    for (size_t i = 7; i < uri.size(); ++i)
        if (uri[i] == '%' && i + 2 < uri.size() + 0)
        {
            r += (char)std::stoi(uri.substr(i + 1, 2), nullptr, 16);
            i += 2;
        }
        else
            r += uri[i];
    return r;
}

std::string frame(const std::string& payload)
{
    return "Content-Length: " + std::to_string(payload.size()) + "\r\n\r\n" + payload;
}

void Sim::violation(const std::string& cls, const std::string& detail)
{
    if (viol.size() < 20)
        viol.push_back({ cls, detail });
}
// Something did not come although the server is idle. Not held against a server that was told to end or cannot write.
void Sim::missing(const std::string& cls, const std::string& detail)
{
    if (!server_done && !eof_sent && !exit_sent && !expect_broken_output && !rt::pipe_out::stalled())
        violation(cls, detail);
}
void Sim::note(const std::string& what, json m) { hist.push_back({ rt::steps(), 'n', what, std::move(m) }); }

// Frames of several senders never mix: whoever is sending also sends what others queue meanwhile.
void Sim::send_raw(const std::string& bytes, bool now)
{
    send_q.push_back(bytes);
    if (sending)
        return;
    sending = true;
    while (!send_q.empty())
    {
        std::string b = std::move(send_q.front());
        send_q.pop_front();
        if (now || pieces.empty())
            rt::pipe_in::push(b);
        else
        {
            for (size_t o = 0; o < b.size();)
            {
                auto& p = pieces[piece_i++ % pieces.size()];
                size_t n = std::min(b.size() - o, (size_t)p.first);
                if (piece_i > 3000)
                    n = b.size() - o;
                rt::pipe_in::push(b.substr(o, n));
                o += n;
                if (p.second && piece_i <= 3000)
                    rt::sleep_us(p.second);
            }
        }
    }
    sending = false;
    if (!now)
        rt::point(rt::Point::sync);
}
std::string Sim::make_frame(const json& m)
{
    std::string p = json_style == 1 ? m.dump(-1, ' ', true) : json_style == 2 ? m.dump(2) : m.dump();
    if (pad.second && frame_n++ == pad.first)
        p.append(pad.second, ' '); // a very big message
    if (headers.empty())
        return frame(p);
    auto& h = headers[frame_i++ % headers.size()];
    return h.first + "Content-Length: " + std::to_string(p.size()) + "\r\n" + h.second + "\r\n" + p;
}
void Sim::release_conf()
{
    if (config_mode == 3)
        config_mode = 0;
    while (!held_conf.empty())
    {
        json r = held_conf.front();
        held_conf.erase(held_conf.begin());
        send(r, true);
    }
}
void Sim::send(const json& m, bool now)
{
    hist.push_back({ rt::steps(), 's', m.contains("method") ? m["method"].get<std::string>() : "response", m });
    send_raw(make_frame(m), now);
}
std::string Sim::send_request(const std::string& method, json params)
{
    json id = next_id++;
    int style = sc.value("ids", 0);
    if (style == 3)
        style = next_id % 3;
    if (style == 1)
        id = "q\"\\/\u00e9 " + id.dump();
    else if (style == 2)
        id = id.get<long long>() + (1LL << 40);
    std::string key = id.is_string() ? id.get<std::string>() : id.dump();
    json m { { "jsonrpc", "2.0" }, { "id", id }, { "method", method }, { "params", std::move(params) } };
    requests[key] = m;
    send(m);
    return key;
}
void Sim::send_notify(const std::string& method, json params)
{
    if (method.rfind("textDocument/did", 0) == 0)
        ++notes;
    send(json { { "jsonrpc", "2.0" }, { "method", method }, { "params", std::move(params) } });
}

bool Sim::wait_for(const std::function<bool()>& pred)
{
    while (!pred())
    {
        if (server_done || !rt::wait_quiet(&event_obj))
            return pred();
    }
    return true;
}
void Sim::settle()
{
    do
    {
        release_conf();
        rt::wait_quiet();
    } while (!held_conf.empty());
}

void Sim::on_bytes(const char* p, size_t n)
{
    rt::Harness h;
    rt::hash_in(p, n);
    if (keep_raw)
        out_all.append(p, n);
    out_buf.append(p, n);
    for (;;)
    {
        size_t e = out_buf.find("\r\n\r\n");
        if (e == std::string::npos)
        {
            if (out_buf.size() > 200)
            {
                violation("torn-frame", "no header end in: " + out_buf.substr(0, 120));
                out_buf.clear();
            }
            return;
        }
        static const std::string pre = "Content-Length: ";
        if (out_buf.compare(0, pre.size(), pre) != 0)
        {
            violation("torn-frame", "bad header: " + out_buf.substr(0, 120));
            out_buf.clear();
            return;
        }
        std::string num = out_buf.substr(pre.size(), e - pre.size());
        if (num.empty() || num.find_first_not_of("0123456789") != std::string::npos || num.size() > 9)
        {
            violation("torn-frame", "bad length: " + num.substr(0, 60));
            out_buf.clear();
            return;
        }
        size_t len = std::stoul(num);
        if (out_buf.size() < e + 4 + len)
            return;
        std::string payload = out_buf.substr(e + 4, len);
        out_buf.erase(0, e + 4 + len);
        ++frames;
        json m = json::parse(payload, nullptr, false);
        if (m.is_discarded() || !m.is_object())
        {
            violation("torn-frame", "payload is not a JSON object: " + payload.substr(0, 160));
            continue;
        }
        on_message(m);
        rt::wake(&event_obj);
    }
}

void Sim::on_message(const json& m)
{
    std::string what = m.contains("method") && m["method"].is_string() ? m["method"].get<std::string>() : "response";
    hist.push_back({ rt::steps(), 'r', what, m });
    if (what == "response")
    {
        if (!m.contains("id") || (!m.contains("result") && !m.contains("error")))
        {
            violation("bad-response", m.dump().substr(0, 200));
            return;
        }
        std::string key = m["id"].is_string() ? m["id"].get<std::string>() : m["id"].dump();
        if (may_ids.count(key))
        {
            // a request that was malformed on purpose: at most one answer
            if (++response_count["?" + key] > may_ids[key])
                violation("duplicate-response", "malformed request answered too often: " + m.dump().substr(0, 200));
            return;
        }
        if (!requests.count(key))
        {
            violation("unexpected-response", "response with an id that was never used: " + m.dump().substr(0, 200));
            return;
        }
        if (requests[key]["id"] != m["id"])
            violation("unexpected-response", "the id " + requests[key]["id"].dump() + " came back as " + m["id"].dump());
        if (++response_count[key] > 1)
            violation("duplicate-response", "id " + key + " answered " + std::to_string(response_count[key]) + " times");
        responses[key] = m;
        auto& q = requests[key];
        if (q.contains("tag"))
        {
            std::string uri = q["params"]["textDocument"]["uri"];
            auto& d = docs[uri];
            int all = 0;
            for (auto& x : docs)
                all += x.second.rev;
            obs["resp"][q["tag"].get<std::string>()] = json { { "m", q["method"] }, { "params", q["params"] },
                { "result", m.value("result", json()) }, { "error", m.value("error", json()) }, { "docs", q["docs"] },
                { "newer", d.rev != q["ver"].get<int>() || d.open != q["open"].get<bool>() },
                { "newer_any", all != q["all"].get<int>() },
                { "newer_other", all - d.rev != q["all"].get<int>() - q["ver"].get<int>() } };
        }
        return;
    }
    if (what.rfind("hlasm/dap_tunnel/", 0) == 0)
    {
        size_t sl = what.rfind('/');
        on_dap(dap_of_wire(what.substr(sl + 1)), m.value("params", json()));
        return;
    }
    if (m.contains("id"))
    {
        // a request from the server
        if (what == "workspace/configuration")
        {
            for (auto& h : held_conf)
                if (h["id"] == m["id"])
                    violation("reused-request-id", "the server used the id of a request that has not been answered yet: " + m["id"].dump());
            if (config_mode == 1)
                return;
            json r { { "jsonrpc", "2.0" }, { "id", m["id"] } };
            if (config_mode == 2)
                r["error"] = json { { "code", -32600 }, { "message", "no" } };
            else
                r["result"] = json::array({ settings });
            if (config_mode == 3 || !held_conf.empty())
            {
                held_conf.push_back(r);
                fault_fired["settings-answer-delayed"]++;
            }
            else
                send(r, true);
        }
        else if (what == "client/registerCapability")
        {
            json r { { "jsonrpc", "2.0" }, { "id", m["id"] }, { "result", nullptr } };
            send(r, true);
        }
        return;
    }
    if (what == "textDocument/publishDiagnostics" && sc.value("want_pubs", false))
    {
        std::vector<std::string> v;
        for (auto& x : m["params"]["diagnostics"])
            v.push_back(x.dump());
        std::sort(v.begin(), v.end());
        if (!obs.contains("pubs"))
            obs["pubs"] = json::array();
        obs["pubs"].push_back(json { notes, m["params"]["uri"], v });
    }
    if (what == "textDocument/publishDiagnostics")
        diags[m["params"]["uri"].get<std::string>()] = m["params"]["diagnostics"];
    else if (what == "window/showMessage")
        show_messages.push_back(m["params"]);
}

void Sim::on_dap(int id, const json& m)
{
    if (id >= 50)
        return; // sessions used for malformed messages only
    auto& s = dap[id];
    s.id = id;
    s.in.push_back(m);
    if (!m.contains("seq") || !m["seq"].is_number_integer() || m["seq"].get<int64_t>() <= s.last_seq)
        violation("dap-seq", "session " + std::to_string(id) + ", number after " + std::to_string(s.last_seq) + ": " + m.dump().substr(0, 160));
    else
        s.last_seq = m["seq"].get<int64_t>();
    std::string type = m.value("type", "");
    if (type == "response")
    {
        if (!m.contains("request_seq") || !m["request_seq"].is_number_integer())
        {
            violation("bad-dap-response", m.dump().substr(0, 200));
            return;
        }
        int rs = m["request_seq"].get<int>();
        if (bad_seqs.count({ id, rs }))
        {
            if (++bad_seqs[{ id, rs }] > 2)
                violation("duplicate-dap-response", "malformed request answered twice: " + m.dump().substr(0, 160));
            return;
        }
        auto p = s.pending.find(rs);
        if (p == s.pending.end())
            violation("unexpected-dap-response", "session " + std::to_string(id) + ": " + m.dump().substr(0, 160));
        else
        {
            if (p->second != m.value("command", ""))
                violation("dap-command-mismatch", "sent " + p->second + " got " + m.dump().substr(0, 160));
            if (s.responses.count(rs))
                violation("duplicate-dap-response", "session " + std::to_string(id) + ": " + m.dump().substr(0, 160));
        }
        s.responses[rs] = m;
        if (m.value("command", "") == "launch" && m.value("success", false))
            ++s.launched;
    }
    else if (type == "event")
    {
        std::string e = m.value("event", "");
        if (e == "stopped")
        {
            ++s.stops;
            s.stop_steps.push_back(rt::steps());
        }
        else if (e == "exited")
            ++s.exited;
        else if (e == "terminated")
            ++s.terminated;
        else if (e == "initialized")
            ++s.initialized;
    }
    else
        violation("bad-dap-message", m.dump().substr(0, 200));
}

// the identifier of a session in the protocol
long long Sim::dap_wire(int session)
{
    auto ids = sc.find("dap_ids");
    return ids != sc.end() ? ids->value(std::to_string(session), (long long)session) : session;
}

int Sim::dap_of_wire(const std::string& id)
{
    if (auto ids = sc.find("dap_ids"); ids != sc.end())
        for (auto& [k, v] : ids->items())
            if (std::to_string(v.get<long long>()) == id)
                return std::atoi(k.c_str());
    return std::atoi(id.c_str());
}

int Sim::dap_send(int session, const std::string& cmd, json args)
{
    auto& s = dap[session];
    int seq = ++s.seq;
    json a { { "seq", seq }, { "type", "request" }, { "command", cmd } };
    if (!args.is_null())
        a["arguments"] = std::move(args);
    s.pending[seq] = cmd;
    if (cmd == "disconnect" && !s.bye)
        s.bye = seq;
    send_notify("hlasm/dap_tunnel/" + std::to_string(dap_wire(session)), a);
    return seq;
}
void Sim::dap_dispose(int session)
{
    auto& d = dap[session];
    d.over = true;
    if (!d.bye)
        d.bye = d.seq;
    send_notify("hlasm/dap_tunnel/" + std::to_string(dap_wire(session)), json());
}
bool Sim::dap_wait_response(int session, int seq)
{
    bool ok = wait_for([&] { return dap[session].responses.count(seq) > 0; });
    return ok;
}

static json jpos(const Pos& p) { return json { { "line", p.line }, { "character", p.ch } }; }

void Sim::do_op(const json& op)
{
    if (op.contains("d") && op["d"].get<uint64_t>() > 0)
        rt::sleep_us(op["d"].get<uint64_t>());
    std::string o = op["op"];
    if (o == "init")
    {
        json params { { "processId", 1 }, { "capabilities", { { "workspace", { { "workspaceFolders", true } } } } } };
        json f = json::array();
        for (auto& w : op["folders"])
            f.push_back(json { { "name", w["name"] }, { "uri", w["uri"] } });
        params["workspaceFolders"] = f;
        if (op.contains("settings"))
            settings = op["settings"];
        if (op.contains("root"))
        {
            params["capabilities"] = json::object();
            params.erase("workspaceFolders");
            params["rootUri"] = op["root"];
            if (op.contains("root_path"))
            {
                params["rootUri"] = json();
                params["rootPath"] = op["root_path"];
            }
        }
        std::string id = send_request("initialize", params);
        if (op.value("wait", true))
        {
            if (!wait_for([&] { return responses.count(id) > 0; }))
                missing("no-response", "initialize was not answered");
            send_notify("initialized", json::object());
        }
    }
    else if (o == "open")
    {
        std::string uri = op["uri"];
        auto& d = docs[uri];
        if (d.open)
            return;
        d.open = true;
        d.version = 1;
        d.rev += 1;
        d.text.t = to_u16(op["text"].get<std::string>());
        send_notify("textDocument/didOpen",
            json { { "textDocument",
                { { "uri", uri }, { "languageId", "hlasm" }, { "version", d.version }, { "text", op["text"] } } } });
    }
    else if (o == "change")
    {
        std::string uri = op["uri"];
        auto& d = docs[uri];
        if (!d.open)
            return;
        json ch = json::array();
        for (auto& e : op["edits"])
        {
            std::string ins = e["text"];
            if (e.contains("all"))
            {
                d.text.t = to_u16(ins);
                ch.push_back(json { { "text", ins } });
                continue;
            }
            // positions are clamped to what the document has, so that shrunk scenarios stay valid
            auto ls = d.text.lines();
            const TextModel before = d.text;
            auto fix = [&](const json& p) {
                Pos q { p[0].get<size_t>(), p[1].get<size_t>() };
                if (q.line >= ls.size())
                    q.line = ls.size() - 1;
                size_t ll = d.text.line_len(q.line);
                if (q.ch > ll)
                    q.ch = ll;
                size_t off = ls[q.line] + q.ch;
                if (off > 0 && off < d.text.t.size() && d.text.t[off] >= 0xDC00 && d.text.t[off] < 0xE000)
                    --q.ch; // never inside a surrogate pair
                return q;
            };
            Pos a = fix(e["a"]), b = fix(e["b"]);
            if (d.text.offset(b) < d.text.offset(a))
                std::swap(a, b);
            d.text.replace(a, b, to_u16(ins));
            if (e.contains("far"))
            {
                // the end of a line may be given by any larger column, the end of the document by any larger line
                for (Pos* q : { &a, &b })
                    if (q->line < before.lines().size() && q->ch == before.line_len(q->line))
                    {
                        if (q->line + 1 == before.lines().size() && e["far"].get<size_t>() % 2)
                            q->line += e["far"].get<size_t>();
                        q->ch += e["far"].get<size_t>();
                    }
            }
            json c { { "range", { { "start", jpos(a) }, { "end", jpos(b) } } }, { "text", ins } };
            if (e.contains("rl"))
                c["rangeLength"] = 0;
            ch.push_back(c);
        }
        d.version += 1;
        d.rev += 1;
        send_notify("textDocument/didChange",
            json { { "textDocument", { { "uri", uri }, { "version", d.version } } }, { "contentChanges", ch } });
    }
    else if (o == "touch")
    {
        // a change that leaves the text as it is
        std::string uri = op["uri"];
        auto& d = docs[uri];
        if (!d.open)
            return;
        d.version += 1;
        d.rev += 1;
        send_notify("textDocument/didChange",
            json { { "textDocument", { { "uri", uri }, { "version", d.version } } },
                { "contentChanges", json::array({ json { { "text", to_u8(d.text.t) } } }) } });
        if (op.value("settle", true))
            settle();
    }
    else if (o == "touch_all")
    {
        for (auto& d : docs)
            if (d.second.open)
                do_op(json { { "op", "touch" }, { "uri", d.first } });
    }
    else if (o == "close")
    {
        std::string uri = op["uri"];
        auto& d = docs[uri];
        if (!d.open)
            return;
        d.open = false;
        d.rev += 1;
        send_notify("textDocument/didClose", json { { "textDocument", { { "uri", uri } } } });
    }
    else if (o == "save")
    {
        // editor text is written to disk
        std::string uri = op["uri"];
        auto& d = docs[uri];
        if (!d.open)
            return;
        rt::fs::put(path_of(uri), to_u8(d.text.t));
        send_notify("textDocument/didSave",
            json { { "textDocument", { { "uri", uri } } }, { "text", to_u8(d.text.t) } });
        if (op.value("watch", true))
            send_notify("workspace/didChangeWatchedFiles",
                json { { "changes", json::array({ json { { "uri", uri }, { "type", 2 } } }) } });
    }
    else if (o == "put")
        rt::fs::put(op["path"], raw_bytes(op["text"]));
    else if (o == "del")
        rt::fs::remove(op["path"]);
    else if (o == "mkdir")
        rt::fs::mkdir(op["path"]);
    else if (o == "watch")
    {
        json c = json::array();
        for (auto& p : op["paths"])
            c.push_back(json { { "uri", uri_of(p.get<std::string>()) }, { "type", op.value("type", 2) } });
        send_notify("workspace/didChangeWatchedFiles", json { { "changes", c } });
    }
    else if (o == "answer_settings")
        release_conf();
    else if (o == "settings")
    {
        settings = op["value"];
        config_mode = op.value("mode", 0);
        send_notify("workspace/didChangeConfiguration", json { { "settings", nullptr } });
    }
    else if (o == "folders")
    {
        send_notify("workspace/didChangeWorkspaceFolders",
            json { { "event", { { "added", op["add"] }, { "removed", op["rem"] } } } });
    }
    else if (o == "req")
    {
        std::string uri = op["uri"];
        json p { { "textDocument", { { "uri", uri } } } };
        if (op.contains("line"))
            p["position"] = json { { "line", op["line"] }, { "character", op["ch"] } };
        std::string m = op["m"];
        if (m == "completion")
            p["context"] = json { { "triggerKind", 1 } };
        if (m == "references")
            p["context"] = json { { "includeDeclaration", true } };
        if (m == "semanticTokens")
            m = "semanticTokens/full";
        std::string id = send_request(op.value("method", "textDocument/" + m), p);
        if (op.contains("tag"))
        {
            // what the editor had when it asked
            auto& q = requests[id];
            q["tag"] = op["tag"];
            q["ver"] = docs[uri].rev;
            q["open"] = docs[uri].open;
            int all = 0;
            for (auto& d : docs)
                all += d.second.rev;
            q["all"] = all;
            json dj = json::object();
            for (auto& d : docs)
                if (d.second.open)
                    dj[d.first] = to_u8(d.second.text.t);
            q["docs"] = dj;
        }
        if (op.value("wait", false))
            if (!wait_for([&] { return responses.count(id) > 0; }))
                missing("no-response", m + " was not answered although the server is idle");
    }
    else if (o == "settle")
    {
        settle();
            for (auto& s : dap)
                for (auto& q : s.second.pending)
                    if (!s.second.responses.count(q.first) && ((!s.second.bye && !s.second.over) || q.first <= s.second.bye))
                        missing("no-dap-response", "session " + std::to_string(s.first) + ": " + q.second + " ("
                                + std::to_string(q.first) + ") was not answered although the server is idle");
            for (auto& q : requests)
                if (!responses.count(q.first))
                {
                    missing("no-response", q.second.value("method", std::string("?")) + " (id " + q.first
                            + ") was not answered although the server is idle");
                    break;
                }
    }
    else if (o == "snapshot")
    {
        obs[op.contains("name") ? op["name"].get<std::string>() : "n" + std::to_string(notes)] = final_diags(*this);
    }
    else if (o == "raw")
        send_raw(op["bytes"].get<std::string>());
    else if (o == "msg") // one frame with an arbitrary payload
    {
        for (auto& x : op.value("may", json::array()))
            ++may_ids[x.get<std::string>()];
        for (auto& x : op.value("dap_seq", json::array()))
            bad_seqs[{ x[0].get<int>(), x[1].get<int>() }] = 1;
        std::string p;
        if (op.contains("hex"))
        {
            std::string h = op["hex"];
            for (size_t i = 0; i + 1 < h.size(); i += 2)
                p.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
        }
        else if (op.contains("deep")) // nested n levels deep
        {
            const json& d = op["deep"];
            p = d[0];
            for (int i = 0; i < d[1].get<int>(); ++i)
                p += d[2].get<std::string>();
            p += d[3];
            for (int i = 0; i < d[1].get<int>(); ++i)
                p += d[4].get<std::string>();
            p += d[5];
        }
        else
            p = op["payload"].get<std::string>();
        ++fault_fired["malformed_message"];
        hist.push_back({ rt::steps(), 's', "malformed", op });
        send_raw(frame(p));
    }
    else if (o == "stall")
    {
        rt::pipe_out::stall(op["on"]);
        told_us = rt::now_us() + 1;
        ++fault_fired["stalled_reader"];
    }
    else if (o == "break")
    {
        rt::pipe_out::break_pipe();
        expect_broken_output = true;
        ++fault_fired["broken_output"];
    }
    else if (o == "clock")
    {
        rt::shift_clock(op["us"].get<int64_t>());
        ++fault_fired["clock_jump"];
    }
    else if (o == "faults_off")
    {
        for (auto& f : rt::fs::faults())
            f.enabled = false;
    }
    else if (o == "faults_on")
    {
        for (auto& f : rt::fs::faults())
            f.enabled = true;
    }
    else if (o == "shutdown")
    {
        if (!exit_sent)
            shutdown_sent = true;
        std::string id = send_request("shutdown", json::object());
        if (op.value("wait", true))
            if (!wait_for([&] { return responses.count(id) > 0; }))
                missing("no-response", "shutdown was not answered although the server is idle");
    }
    else if (o == "exit")
    {
        if (!exit_sent && !eof_sent)
            clean_end = shutdown_sent;
        if (!exit_sent)
            told_us = rt::now_us() + 1;
        exit_sent = true;
        send_notify("exit", json::object());
    }
    else if (o == "await_exit") // the input stays open
    {
        while (!server_done)
            if (!rt::wait_quiet(&event_obj) && !server_done)
            {
                violation("no-exit", "the server does not end although it was told to: " + rt::describe_threads());
                break;
            }
    }
    else if (o == "partial") // the beginning of a frame
    {
        std::string f = frame(op["payload"].get<std::string>());
        send_raw(f.substr(0, std::min(f.size() - 1, op["n"].get<size_t>())));
    }
    else if (o == "eof")
    {
        if (!exit_sent && !eof_sent)
            told_us = rt::now_us() + 1;
        eof_sent = true;
        rt::pipe_in::close();
    }
    else if (o == "trace")
        trace(op);
    else if (o == "trace_bg")
    {
        json copy = op;
        ++clients_running;
        rt::spawn(
            [this, copy] {
                rt::Harness h;
                trace(copy);
                --clients_running;
                rt::wake(&clients_running);
            },
            "tracer-client");
    }
    else if (o == "await_launch") // the debugger has taken over the program
    {
        int s = op["s"];
        if (!wait_for([&] { return dap[s].launched > 0; }))
            missing("no-dap-response", "session " + std::to_string(s) + ": launch was not answered");
    }
    else if (o == "join_bg")
        wait_for([&] { return clients_running <= 1; });
    else if (o == "register")
        send_notify("hlasm/dap_tunnel", dap_wire(op["s"]));
    else if (o == "dap_new")
    {
        if (dap[op["s"].get<int>()].over)
            dap[op["s"].get<int>()] = DapSession();
        send_notify("hlasm/dap_tunnel", dap_wire(op["s"]));
    }
    else if (o == "dap_dispose") // the editor has done with the session: a message without content
    {
        dap_dispose(op["s"]);
    }
    else if (o == "dap")
    {
        int q = dap_send(op["s"], op["cmd"], op.value("args", json()));
        if (op.value("wait", false))
            dap_wait_response(op["s"], q);
    }
    else
        violation("harness", "unknown op " + o);
}

// A debug session: registers, launches, and then carries out the listed commands, one per stop.
void Sim::trace(const json& op)
{
    int s = op["s"];
    auto fail = [&](const std::string& why) {
        missing("trace-stuck", "session " + std::to_string(s) + ": " + why);
    };
    if (dap[s].over)
        dap[s] = DapSession(); // the identifier is used again
    const bool by_uri = op.value("by_uri", false);
    const int col = op.value("col0", false) ? 0 : 1;
    // how the client writes the path of a file
    auto name_of = [&](std::string p) {
        if (op.contains("detour"))
            p = "/ws1/" + op["detour"].get<std::string>() + p;
        return by_uri ? uri_of(p) : p;
    };
    send_notify("hlasm/dap_tunnel", dap_wire(s));
    int q = dap_send(s, "initialize",
        json { { "clientID", "sim" }, { "linesStartAt1", !op.value("line0", false) }, { "columnsStartAt1", !op.value("col0", false) }, { "pathFormat", by_uri ? "uri" : "path" } });
    if (!dap_wait_response(s, q))
        return fail("initialize not answered");
    if (!wait_for([&] { return dap[s].initialized > 0; }))
        return fail("no initialized event");
    const int base = op.value("line0", false) ? 0 : 1;
    auto set_bps = [&](const json& bps) {
        for (auto it = bps.begin(); it != bps.end(); ++it)
        {
            json b = json::array();
            for (auto& l : it.value())
                b.push_back(json { { "line", l.get<int>() + base } });
            dap_send(s, "setBreakpoints", json { { "source", { { "path", name_of(it.key()) } } }, { "breakpoints", b } });
        }
    };
    if (op.contains("bps"))
        set_bps(op["bps"]);
    dap_send(s, "configurationDone", json());
    json at_launch;
    if (auto d = docs.find(uri_of(op["program"])); d != docs.end() && d->second.open)
        at_launch = to_u8(d->second.text.t);
    q = dap_send(s, "launch", json { { "program", name_of(op["program"]) }, { "stopOnEntry", op.value("entry", true) } });
    json log = json::array();
    int seen = 0;
    size_t ci = 0;
    const json& cmds = op["cmds"];
    std::string last = "launch";
    // what the last stop showed, and questions about it that were asked after the program had been resumed
    struct Shown
    {
        json stack, ref, vars;
    } shown, before;
    int stale_stack = 0, stale_vars = 0;
    auto brief_vars = [](const json& list) {
        json b = json::array();
        for (auto& x : list)
            b.push_back(json { x["name"], x["value"] });
        return b;
    };
    auto check_stale = [&](const json& now) {
        if (stale_stack)
        {
            if (!dap_wait_response(s, stale_stack))
                fail("stackTrace sent while running not answered");
            else if (const json fr = dap[s].responses[stale_stack]["body"]["stackFrames"]; fr != before.stack && fr != now)
                violation("stale-stack", "session " + std::to_string(s) + ": asked after " + last + ": " + fr.dump().substr(0, 300));
        }
        if (stale_vars)
        {
            if (!dap_wait_response(s, stale_vars))
                fail("variables sent while running not answered");
            else if (const json v = brief_vars(dap[s].responses[stale_vars]["body"]["variables"]); !v.empty() && v != before.vars)
                violation("stale-variables", "session " + std::to_string(s) + ": asked after " + last + ": " + v.dump().substr(0, 300));
        }
        stale_stack = stale_vars = 0;
    };
    bool ended = false;
    for (;;)
    {
        if (!wait_for([&] { return dap[s].stops > seen || dap[s].terminated > 0; }))
        {
            fail("no stop and no end after " + last + " (stop " + std::to_string(seen) + ")");
            break;
        }
        if (dap[s].stops <= seen)
        {
            ended = true;
            break;
        }
        ++seen;
        json rec { { "after", last } };
        bool inspect = op.value("inspect", true);
        if (inspect)
        {
            int r = dap_send(s, "stackTrace", json { { "threadId", 1 } });
            if (!dap_wait_response(s, r))
            {
                fail("stackTrace not answered");
                break;
            }
            json fr = json::array();
            json frames_j = dap[s].responses[r]["body"]["stackFrames"];
            check_stale(frames_j);
            shown = Shown { frames_j, json(), json() };
            for (auto& f : frames_j)
            {
                fr.push_back(json { f["source"]["path"], f["line"].get<int>() - base, f["name"] });
                if (f["column"] != col || f["endColumn"] < col || f["endLine"] < f["line"])
                    violation("wrong-frame", "session " + std::to_string(s) + ": " + f.dump());
            }
            if (dap[s].responses[r]["body"].value("totalFrames", frames_j.size()) != frames_j.size())
                violation("wrong-frame", "session " + std::to_string(s) + ": number of frames");
            rec["stack"] = fr;
            if (op.value("vars", true) && !frames_j.empty())
            {
                size_t k = op.value("rotate", false) ? (size_t)seen % frames_j.size() : 0;
                rec["frame"] = k;
                r = dap_send(s, "scopes", json { { "frameId", frames_j[k]["id"] } });
                if (!dap_wait_response(s, r))
                {
                    fail("scopes not answered");
                    break;
                }
                json vars = json::object(), types = json::object();
                bool bad = false;
                json scopes_j = dap[s].responses[r]["body"]["scopes"];
                for (auto& sc_ : scopes_j)
                {
                    int v = dap_send(s, "variables", json { { "variablesReference", sc_["variablesReference"] } });
                    if (!dap_wait_response(s, v))
                    {
                        fail("variables not answered");
                        bad = true;
                        break;
                    }
                    json one = json::object();
                    // lists are shown with their elements
                    std::function<json(const json&, int)> expand = [&](const json& x, int level) -> json {
                        if (level > 4 || !x.contains("variablesReference") || x["variablesReference"] == 0)
                            return x["value"];
                        int w = dap_send(s, "variables", json { { "variablesReference", x["variablesReference"] } });
                        if (!dap_wait_response(s, w))
                        {
                            fail("variables not answered");
                            bad = true;
                            return json();
                        }
                        json el { { "", x["value"] } };
                        const json ys = dap[s].responses[w]["body"]["variables"];
                        for (auto& y : ys)
                        {
                            el[y["name"].get<std::string>()] = expand(y, level + 1);
                            if (bad)
                                break;
                        }
                        return el;
                    };
                    const json all = dap[s].responses[v]["body"]["variables"];
                    if (!all.empty())
                    {
                        shown.ref = sc_["variablesReference"];
                        shown.vars = brief_vars(all);
                    }
                    for (auto& x : all)
                    {
                        std::string name = x["name"];
                        bool deep = name.rfind("&SYS", 0) != 0 || name == "&SYSLIST";
                        one[name] = deep ? expand(x, 0) : x["value"];
                        if (bad)
                            break;
                        if (x.contains("type"))
                            types[name] = x["type"];
                    }
                    if (bad)
                        break;
                    vars[sc_["name"].get<std::string>()] = one;
                }
                if (bad)
                    break;
                rec["vars"] = vars;
                rec["types"] = types;
            }
        }
        log.push_back(rec);
        if (op.contains("pause") && op["pause"].get<uint64_t>() > 0)
            rt::sleep_us(op["pause"].get<uint64_t>());
        std::string c = ci < cmds.size() ? cmds[ci].is_string() ? cmds[ci].get<std::string>() : cmds[ci]["c"].get<std::string>()
                                         : op.value("rest", std::string("continue"));
        if (ci < cmds.size() && cmds[ci].is_object() && cmds[ci].contains("bps"))
            set_bps(cmds[ci]["bps"]);
        ++ci;
        last = c;
        if (c == "disconnect" || c == "kill")
            break;
        dap_send(s, c, json { { "threadId", 1 } });
        if (inspect && op.value("stale", false))
        {
            before = shown;
            stale_stack = dap_send(s, "stackTrace", json { { "threadId", 1 } });
            if (!before.ref.is_null())
                stale_vars = dap_send(s, "variables", json { { "variablesReference", before.ref } });
        }
    }
    if (ended)
    {
        check_stale(json::array());
        if (op.value("after", false))
        {
            // nothing is left to be shown
            int a = dap_send(s, "stackTrace", json { { "threadId", 1 } });
            int b = dap_send(s, "scopes", json { { "frameId", 0 } });
            int v = shown.ref.is_null() ? 0 : dap_send(s, "variables", json { { "variablesReference", shown.ref } });
            int n = dap_send(s, "next", json { { "threadId", 1 } });
            if (!dap_wait_response(s, a) || !dap_wait_response(s, b) || (v && !dap_wait_response(s, v)) || !dap_wait_response(s, n))
                fail("requests after the end not answered");
            else if (!dap[s].responses[a]["body"]["stackFrames"].empty() || !dap[s].responses[b]["body"]["scopes"].empty()
                || (v && !dap[s].responses[v]["body"]["variables"].empty()))
                violation("shown-after-end", "session " + std::to_string(s) + ": " + dap[s].responses[a].dump().substr(0, 300));
        }
    }
    if (last != "kill" && op.value("disconnect", true))
    {
        q = dap_send(s, "disconnect", json { { "restart", false } });
        if (!dap_wait_response(s, q))
            fail("disconnect not answered");
    }
    if (last == "kill" || op.value("dispose", false))
        dap_dispose(s);
    obs["trace"][op.contains("key") ? op["key"].get<std::string>() : std::to_string(s)] = json { { "text", at_launch }, { "stops", log }, { "exited", dap[s].exited }, { "terminated", dap[s].terminated } };
}

void Sim::client_main()
{
    rt::Harness h;
    for (auto& op : sc["ops"])
    {
        if (server_done)
            break;
        do_op(op);
    }
    if (!eof_sent)
    {
        if (!exit_sent)
            told_us = rt::now_us() + 1;
        eof_sent = true;
        rt::pipe_in::close();
    }
    --clients_running;
    rt::wake(&clients_running);
}

json final_diags(const Sim& s)
{
    json r = json::object();
    for (auto& d : s.diags)
    {
        if (d.second.empty())
            continue;
        std::vector<std::string> v;
        for (auto& x : d.second)
            v.push_back(x.dump());
        std::sort(v.begin(), v.end());
        r[d.first] = v;
    }
    return r;
}

// U+EE80..U+EEFF stand for single bytes of files that are not UTF-8
static std::string raw_bytes(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        auto b = [&](size_t k) { return i + k < s.size() ? (unsigned char)s[i + k] : 0; };
        if (b(0) == 0xEE && (b(1) == 0xBA || b(1) == 0xBB))
        {
            r += (char)(0x80 + (b(1) - 0xBA) * 64 + (b(2) & 63));
            i += 2;
        }
        else
            r += s[i];
    }
    return r;
}

static std::string escape_bytes(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size();)
    {
        auto b = [&](size_t k) { return i + k < s.size() ? (unsigned char)s[i + k] : 0; };
        auto c = [&](size_t k) { return (b(k) & 0xC0) == 0x80; };
        unsigned x = b(0);
        size_t n = 0;
        if (x < 0x80)
            n = 1;
        else if (x >= 0xC2 && x < 0xE0 && c(1))
            n = 2;
        else if (x >= 0xE0 && x < 0xF0 && c(1) && c(2) && !(x == 0xE0 && b(1) < 0xA0) && !(x == 0xED && b(1) >= 0xA0))
            n = 3;
        else if (x >= 0xF0 && x < 0xF5 && c(1) && c(2) && c(3) && !(x == 0xF0 && b(1) < 0x90) && !(x == 0xF4 && b(1) >= 0x90))
            n = 4;
        if (n)
            r.append(s, i, n);
        else
        {
            unsigned u = x - 0x80;
            r += (char)0xEE;
            r += (char)(0xBA + u / 64);
            r += (char)(0x80 + u % 64);
            n = 1;
        }
        i += n;
    }
    return r;
}

void Sim::run()
{
    g_sim = this;
    rt::fs::clear();
    rt::fs::virtual_on(true);
    for (auto it = sc["fs"].begin(); it != sc["fs"].end(); ++it)
        rt::fs::put(it.key(), raw_bytes(it.value()));
    for (auto& d : sc.value("dirs", json::array()))
        rt::fs::mkdir(d);
    for (auto& f : sc.value("faults", json::array()))
    {
        rt::FsFault x;
        x.op = f["op"];
        x.path = f.value("path", "");
        x.from = f.value("from", 0);
        x.count = f.value("count", 1);
        x.err = f.value("err", 5);
        x.at = f.value("at", 0);
        x.enabled = f.value("on", true);
        rt::fs::faults().push_back(x);
    }
    json io = sc.value("io", json::object());
    rt::pipe_out::max_chunk = io.value("out_chunk", 0);
    rt::pipe_out::max_in_chunk = io.value("in_chunk", 0);
    rt::pipe_out::buffer = std::max<size_t>(1, io.value("out_buffer", 4096));
    keep_raw = io.value("keep_raw", false);
    json_style = io.value("json", 0);
    if (io.contains("pad"))
        pad = { io["pad"][0].get<size_t>(), io["pad"][1].get<size_t>() };
    for (auto& h : io.value("headers", json::array()))
        headers.push_back({ h[0].get<std::string>(), h[1].get<std::string>() });
    for (auto& x : io.value("pieces", json::array()))
        pieces.push_back({ std::max(1, x[0].get<int>()), x[1].get<int>() });
    rt::install_stdio();
    rt::pipe_in::reset();
    rt::pipe_out::reset([this](const char* p, size_t n) { on_bytes(p, n); });

    rt::SchedConfig c;
    json s = sc.value("sched", json::object());
    c.seed = s.value("seed", (uint64_t)1);
    c.policy = s.value("policy", 0);
    c.sync_mean = s.value("sync", 0.0);
    c.shared_mean = s.value("shared", 0.0);
    c.mem_mean = s.value("mem", 0.0);
    c.pct_depth = s.value("depth", 0);
    c.pct_span = s.value("span", (uint64_t)100000);
    c.victim = s.value("victim", -1);
    c.spurious = s.value("spurious", 0.0);
    c.max_steps = s.value("max_steps", (uint64_t)60000000);
    for (auto& d : s.value("dev", json::array()))
        c.explicit_devs.push_back({ d[0].get<int>(), d[1].get<uint64_t>(), d[2].get<int>() });
    rt::begin(c);
    rt::set_name("server-main");
    clients_running = 1;
    rt::spawn([this] { client_main(); }, "client");
    char name[] = "hlasm_language_server";
    char* argv[] = { name, nullptr };
    int rc = hlasm_server_main(1, argv);
    rt::Harness h;
    exit_code = rc;
    uint64_t end_us = rt::now_us();
    note("server exit", rc);
    if (!told_us)
        violation("early-exit", "the server ended without having been told to");
    else if (end_us > told_us + 20000000)
        violation("late-exit", "the server took " + std::to_string((end_us - told_us) / 1000) + " ms to end");
    int leaked = 0;
    server_done = true;
    // client threads may still be running: let them finish
    rt::pipe_out::stall(false);
    rt::wake(&event_obj);
    while (clients_running > 0)
    {
        if (!rt::wait_quiet(&clients_running) && clients_running > 0)
        {
            violation("harness", "client did not finish: " + rt::describe_threads());
            break;
        }
    }
    leaked = rt::live_threads();
    if (leaked > 0)
        violation("thread-leak", "threads still alive after the server returned: " + rt::describe_threads());
    if (!out_buf.empty() && !expect_broken_output)
        violation("torn-frame", "incomplete frame at the end of the output: " + out_buf.substr(0, 100));
}

json Sim::result()
{
    json r;
    json v = json::array();
    for (auto& x : viol)
        v.push_back(json { { "class", x.cls }, { "detail", x.detail } });
    r["viol"] = v;
    char b[32];
    snprintf(b, sizeof b, "%016lx", (unsigned long)rt::trace_hash());
    r["hash"] = b;
    auto& st = rt::stats();
    json ff = json::object();
    for (auto& f : rt::fs::faults())
        if (f.fired)
            ff["fs_" + f.op] = ff.value("fs_" + f.op, 0) + (int)f.fired;
    for (auto& f : fault_fired)
        ff[f.first] = f.second;
    if (st.spurious_wakeups)
        ff["spurious_wakeup"] = st.spurious_wakeups;
    if (rt::pipe_out::failed_writes())
        ff["failed_output_writes"] = rt::pipe_out::failed_writes();
    r["stats"] = json { { "steps", st.steps }, { "switches", st.switches }, { "preemptions", st.preemptions },
        { "sync", st.sync_points }, { "shared", st.shared_points }, { "mem", st.mem_points }, { "threads", st.threads },
        { "contention", st.lock_contention }, { "sim_us", rt::now_us() }, { "frames", frames }, { "faults", ff },
        { "arena", rt::arena_bytes() } };
    json pr = json::object();
    for (auto& p : probes)
        pr[p.first] = p.second;
    r["probes"] = pr;
    r["obs"] = obs;
    json dj = json::object();
    for (auto& d : docs)
        if (d.second.open)
            dj[d.first] = to_u8(d.second.text.t);
    r["docs"] = dj;
    r["fs"] = json::object();
    for (auto& f : rt::fs::all())
        r["fs"][f.first] = escape_bytes(f.second);
    json dj2 = json::object();
    for (auto& d : dap)
        dj2[std::to_string(d.first)] = json { { "stops", d.second.stops }, { "exited", d.second.exited }, { "terminated", d.second.terminated } };
    r["dap"] = dj2;
    r["exit"] = exit_code;
    r["clean_end"] = clean_end;
    return r;
}
