From 08d07192a33b6021c6ac32e6cca787b37e0659ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:45 +0000
Subject: [PATCH 01/31] fix: wait for the running request when a server is
 finished

finish_server_requests returned immediately when the queue was empty, although
the worker thread could still be executing a request of that server. The server
was then destroyed under the worker's hands.
---
 language_server/src/request_manager.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 3378790..10f04bd 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -114,9 +114,6 @@ void request_manager::finish_server_requests(server* to_finish)
 {
     std::lock_guard guard(q_mtx_);
 
-    if (requests_.empty())
-        return;
-
     if (cancel_)
         *cancel_ = true;
 
-- 
2.43.0


From 1dd596ec33789d623302c07507ee694624b2cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:45 +0000
Subject: [PATCH 02/31] fix: exit status and termination of the server

- the return code was read before the LSP thread that computes it was joined
- shutdown and exit received shortly before the end of input were dropped
- the process kept waiting for the end of input after the exit notification
- the flags are shared between two threads
---
 language_server/src/dispatcher.cpp       | 20 +++--------
 language_server/src/json_queue_channel.h |  3 +-
 language_server/src/main.cpp             | 43 +++++++++++++++---------
 language_server/src/server.h             |  6 ++--
 4 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/language_server/src/dispatcher.cpp b/language_server/src/dispatcher.cpp
index 81a0665..bbf1ac7 100644
--- a/language_server/src/dispatcher.cpp
+++ b/language_server/src/dispatcher.cpp
@@ -31,33 +31,23 @@ void dispatcher::reply(const json& message) { channel.write(message); }
 
 int dispatcher::run_server_loop()
 {
-    int ret = 0;
     for (;;)
     {
         auto message = channel.read();
         if (!message.has_value())
-        {
-            ret = 1;
             break;
-        }
 
         req_mngr_.add_request(&server_, std::move(message).value());
 
-        // If exit notification came without prior shutdown request, return error 1.
         if (server_.is_exit_notification_received())
-        {
-            if (server_.is_shutdown_request_received())
-                break;
-            else
-            {
-                ret = 1;
-                break;
-            }
-        }
+            break;
     }
 
+    // the shutdown request and the exit notification may be among the requests that are still waiting
     req_mngr_.finish_server_requests(&server_);
-    return ret;
+
+    // If exit notification did not come or came without prior shutdown request, return error 1.
+    return server_.is_exit_notification_received() && server_.is_shutdown_request_received() ? 0 : 1;
 }
 
 } // namespace hlasm_plugin::language_server
diff --git a/language_server/src/json_queue_channel.h b/language_server/src/json_queue_channel.h
index 4d42cdd..58e4065 100644
--- a/language_server/src/json_queue_channel.h
+++ b/language_server/src/json_queue_channel.h
@@ -22,7 +22,8 @@
 namespace hlasm_plugin::language_server {
 class json_queue_channel final : public json_channel
 {
-    blocking_queue<nlohmann::json> queue;
+    // messages received before the end of the stream still have to be processed (e.g. shutdown and exit)
+    blocking_queue<nlohmann::json, blocking_queue_termination_policy::process_elements> queue;
 
 public:
     std::optional<nlohmann::json> read() override;
diff --git a/language_server/src/main.cpp b/language_server/src/main.cpp
index ae98ac0..339599c 100644
--- a/language_server/src/main.cpp
+++ b/language_server/src/main.cpp
@@ -87,6 +87,12 @@ public:
     void write(nlohmann::json&& msg) override { router.write(std::move(msg)); }
 };
 
+bool is_exit_notification(const nlohmann::json& msg)
+{
+    auto method = msg.find("method");
+    return method != msg.end() && *method == "exit" && msg.find("id") == msg.end();
+}
+
 } // namespace
 
 int main(int argc, char** argv)
@@ -99,26 +105,33 @@ int main(int argc, char** argv)
 
     try
     {
-        int ret = 0;
+        int ret = 1;
 
-        main_program pgm(io_setup->get_response_stream(), ret);
-
-        for (auto& source = io_setup->get_request_stream();;)
         {
-            auto msg = source.read();
-
-            if (!msg.has_value())
-                break;
+            main_program pgm(io_setup->get_response_stream(), ret);
 
-            try
+            for (auto& source = io_setup->get_request_stream();;)
             {
-                pgm.write(msg.value());
-            }
-            catch (const nlohmann::json::exception&)
-            {
-                LOG_WARNING("Could not parse received JSON: " + msg.value());
+                auto msg = source.read();
+
+                if (!msg.has_value())
+                    break;
+
+                const bool exit_received = is_exit_notification(msg.value());
+
+                try
+                {
+                    pgm.write(msg.value());
+                }
+                catch (const nlohmann::json::exception&)
+                {
+                    LOG_WARNING("Could not parse received JSON: " + msg.value().dump());
+                }
+
+                if (exit_received)
+                    break;
             }
-        }
+        } // waits for the LSP thread, which sets the return code
 
         return ret;
     }
diff --git a/language_server/src/server.h b/language_server/src/server.h
index b1d8146..f2cdd89 100644
--- a/language_server/src/server.h
+++ b/language_server/src/server.h
@@ -15,6 +15,7 @@
 #ifndef HLASMPLUGIN_LANGUAGESERVER_SERVER
 #define HLASMPLUGIN_LANGUAGESERVER_SERVER
 
+#include <atomic>
 #include <unordered_set>
 
 #include "common_types.h"
@@ -60,8 +61,9 @@ protected:
     std::map<std::string, method> methods_;
     std::unordered_map<json, method> request_handlers_;
 
-    bool shutdown_request_received_ = false;
-    bool exit_notification_received_ = false;
+    // set by the worker thread, read by the thread that receives messages
+    std::atomic<bool> shutdown_request_received_ = false;
+    std::atomic<bool> exit_notification_received_ = false;
 
     parser_library::workspace_manager& ws_mngr_;
 
-- 
2.43.0


From 52fff2941e8d97ec30259b8b77918ca1bf4d4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:46 +0000
Subject: [PATCH 03/31] fix: malformed and unknown messages

Messages without params, with missing or mistyped members or with an unknown
method ended the thread that processed them, read non-existing JSON members or
were not answered at all:
- const json::operator[] with a missing key is undefined, use at()
- the request manager and the tunnel of the debug sessions inspect messages
  before they are validated
- exceptions thrown by the handlers of responses were not caught
- requests that fail or are not known are answered with an error
- notifications are never answered
- invalid UTF-8 computed from the sources made the serialization throw
---
 language_server/src/base_protocol_channel.cpp | 12 ++++-
 language_server/src/dap/dap_feature.cpp       | 46 +++++++++-------
 language_server/src/dap/dap_feature.h         |  3 ++
 language_server/src/dap/dap_session.cpp       |  2 +-
 language_server/src/feature.cpp               |  6 +--
 .../src/lsp/feature_language_features.cpp     | 26 ++++-----
 .../src/lsp/feature_text_synchronization.cpp  | 24 ++++-----
 .../src/lsp/feature_workspace_folders.cpp     | 20 +++----
 language_server/src/lsp/lsp_server.cpp        | 53 ++++++++++++-------
 language_server/src/main.cpp                  |  2 +-
 language_server/src/request_manager.cpp       | 16 ++++--
 language_server/src/server.cpp                | 11 +++-
 language_server/src/server.h                  |  1 +
 13 files changed, 135 insertions(+), 87 deletions(-)

diff --git a/language_server/src/base_protocol_channel.cpp b/language_server/src/base_protocol_channel.cpp
index 45f0c2b..c6de0af 100644
--- a/language_server/src/base_protocol_channel.cpp
+++ b/language_server/src/base_protocol_channel.cpp
@@ -50,9 +50,17 @@ void base_protocol_channel::write_message(const std::string& in)
     output.flush();
 }
 
-void base_protocol_channel::write(const nlohmann::json& message) { write_message(message.dump()); }
+namespace {
+std::string serialize(const nlohmann::json& message)
+{
+    // values computed from the source text may contain incomplete UTF-8 sequences
+    return message.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+} // namespace
+
+void base_protocol_channel::write(const nlohmann::json& message) { write_message(serialize(message)); }
 
-void base_protocol_channel::write(nlohmann::json&& message) { write_message(message.dump()); }
+void base_protocol_channel::write(nlohmann::json&& message) { write_message(serialize(message)); }
 
 bool base_protocol_channel::read_message(std::string& out)
 {
diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index e8216e4..0a06d01 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -95,17 +95,25 @@ void dap_feature::exited(int exit_code)
 
 void dap_feature::on_initialize(const json& requested_seq, const json& args)
 {
-    response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
-
-    line_1_based_ = args["linesStartAt1"].get<bool>() ? 1 : 0;
-    column_1_based_ = args["columnsStartAt1"].get<bool>() ? 1 : 0;
-    path_format_ = args["pathFormat"].get<std::string>() == "path" ? path_format::PATH : path_format::URI;
+    line_1_based_ = args.value("linesStartAt1", true) ? 1 : 0;
+    column_1_based_ = args.value("columnsStartAt1", true) ? 1 : 0;
+    path_format_ = args.value("pathFormat", "path") == "path" ? path_format::PATH : path_format::URI;
 
     debugger.emplace();
 
+    response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
+
     response_->notify("initialized", json());
 }
 
+bool dap_feature::debugger_ready(const json& request_seq, const std::string& command)
+{
+    if (!debugger)
+        response_->respond_error(request_seq, command, 0, "The debug session is not initialized.", json());
+
+    return debugger.has_value();
+}
+
 void dap_feature::on_disconnect(const json& request_seq, const json&)
 {
     if (disconnect_listener_)
@@ -118,12 +126,12 @@ void dap_feature::on_disconnect(const json& request_seq, const json&)
 
 void dap_feature::on_launch(const json& request_seq, const json& args)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "launch"))
         return;
 
     // wait for configurationDone?
-    std::string program_path = convert_path(args["program"].get<std::string>(), path_format_);
-    bool stop_on_entry = args["stopOnEntry"].get<bool>();
+    std::string program_path = convert_path(args.at("program").get<std::string>(), path_format_);
+    bool stop_on_entry = args.at("stopOnEntry").get<bool>();
     auto workspace_id = ws_mngr_.find_workspace(program_path.c_str());
     debugger->set_event_consumer(this);
     debugger->launch(program_path.c_str(), *workspace_id, stop_on_entry);
@@ -133,19 +141,19 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
 
 void dap_feature::on_set_breakpoints(const json& request_seq, const json& args)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "setBreakpoints"))
         return;
 
     json breakpoints_verified = json::array();
 
-    std::string source = convert_path(args["source"]["path"].get<std::string>(), path_format_);
+    std::string source = convert_path(args.at("source").at("path").get<std::string>(), path_format_);
     std::vector<parser_library::breakpoint> breakpoints;
 
     if (auto bpoints_found = args.find("breakpoints"); bpoints_found != args.end())
     {
         for (auto& bp_json : bpoints_found.value())
         {
-            breakpoints.emplace_back(bp_json["line"].get<json::number_unsigned_t>() - line_1_based_);
+            breakpoints.emplace_back(bp_json.at("line").get<json::number_unsigned_t>() - line_1_based_);
             breakpoints_verified.push_back(json { { "verified", true } });
         }
     }
@@ -178,7 +186,7 @@ void dap_feature::on_threads(const json& request_seq, const json&)
 
 void dap_feature::on_stack_trace(const json& request_seq, const json&)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "stackTrace"))
         return;
 
     nlohmann::json frames_json = json::array();
@@ -203,12 +211,12 @@ void dap_feature::on_stack_trace(const json& request_seq, const json&)
 
 void dap_feature::on_scopes(const json& request_seq, const json& args)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "scopes"))
         return;
 
     nlohmann::json scopes_json = json::array();
 
-    for (const auto& s : debugger->scopes(args["frameId"].get<json::number_unsigned_t>()))
+    for (const auto& s : debugger->scopes(args.at("frameId").get<json::number_unsigned_t>()))
     {
         auto scope = parser_library::scope(s);
         json scope_json = json { { "name", std::string_view(scope.name) },
@@ -224,7 +232,7 @@ void dap_feature::on_scopes(const json& request_seq, const json& args)
 
 void dap_feature::on_next(const json& request_seq, const json&)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "next"))
         return;
 
     debugger->next();
@@ -234,7 +242,7 @@ void dap_feature::on_next(const json& request_seq, const json&)
 
 void dap_feature::on_step_in(const json& request_seq, const json&)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "stepIn"))
         return;
 
     debugger->step_in();
@@ -243,12 +251,12 @@ void dap_feature::on_step_in(const json& request_seq, const json&)
 
 void dap_feature::on_variables(const json& request_seq, const json& args)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "variables"))
         return;
 
     nlohmann::json variables_json = json::array();
 
-    for (auto var : debugger->variables(args["variablesReference"]))
+    for (auto var : debugger->variables(args.at("variablesReference")))
     {
         std::string type;
         switch (var.type)
@@ -287,7 +295,7 @@ void dap_feature::on_variables(const json& request_seq, const json& args)
 
 void dap_feature::on_continue(const json& request_seq, const json&)
 {
-    if (!debugger)
+    if (!debugger_ready(request_seq, "continue"))
         return;
 
     debugger->continue_debug();
diff --git a/language_server/src/dap/dap_feature.h b/language_server/src/dap/dap_feature.h
index 99921e7..ae984aa 100644
--- a/language_server/src/dap/dap_feature.h
+++ b/language_server/src/dap/dap_feature.h
@@ -73,6 +73,9 @@ private:
         hlasm_plugin::parser_library::sequence<char> addtl_info) override;
     void exited(int exit_code) override;
 
+    // Returns true if the session is initialized, otherwise responds to the request with an error.
+    bool debugger_ready(const json& request_seq, const std::string& command);
+
     std::optional<hlasm_plugin::parser_library::debugging::debugger> debugger;
 
     int column_1_based_ = 0;
diff --git a/language_server/src/dap/dap_session.cpp b/language_server/src/dap/dap_session.cpp
index 73a9885..68752c1 100644
--- a/language_server/src/dap/dap_session.cpp
+++ b/language_server/src/dap/dap_session.cpp
@@ -60,7 +60,7 @@ message_router::message_predicate session::get_message_matcher() const
 {
     return [session_id = session_id](const nlohmann::json& msg) {
         auto method_ptr = msg.find("method");
-        return method_ptr != msg.end() && method_ptr->get<std::string_view>() == session_id;
+        return method_ptr != msg.end() && *method_ptr == session_id;
     };
 }
 void session::write(const nlohmann::json& msg) { queue.write(msg); }
diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index ca4f2f3..3b92ce9 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -105,13 +105,13 @@ std::string feature::path_to_uri(std::string_view path)
 
 parser_library::range feature::parse_range(const json& range_json)
 {
-    return { parse_position(range_json["start"]), parse_position(range_json["end"]) };
+    return { parse_position(range_json.at("start")), parse_position(range_json.at("end")) };
 }
 
 parser_library::position feature::parse_position(const json& position_json)
 {
-    return { position_json["line"].get<nlohmann::json::number_unsigned_t>(),
-        position_json["character"].get<nlohmann::json::number_unsigned_t>() };
+    return { position_json.at("line").get<nlohmann::json::number_unsigned_t>(),
+        position_json.at("character").get<nlohmann::json::number_unsigned_t>() };
 }
 
 json feature::range_to_json(const parser_library::range& range)
diff --git a/language_server/src/lsp/feature_language_features.cpp b/language_server/src/lsp/feature_language_features.cpp
index 756b921..4eb3ed8 100644
--- a/language_server/src/lsp/feature_language_features.cpp
+++ b/language_server/src/lsp/feature_language_features.cpp
@@ -78,9 +78,8 @@ void feature_language_features::initialize_feature(const json&)
 
 void feature_language_features::definition(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
 
     auto definition_position_uri = ws_mngr_.definition(uri_to_path(document_uri).c_str(), pos);
@@ -93,9 +92,8 @@ void feature_language_features::definition(const json& id, const json& params)
 
 void feature_language_features::references(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
     json to_ret = json::array();
     auto references = ws_mngr_.references(uri_to_path(document_uri).c_str(), pos);
     for (size_t i = 0; i < references.size(); ++i)
@@ -108,9 +106,8 @@ void feature_language_features::references(const json& id, const json& params)
 }
 void feature_language_features::hover(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
 
     auto hover_list = ws_mngr_.hover(uri_to_path(document_uri).c_str(), pos);
@@ -166,11 +163,10 @@ json feature_language_features::get_markup_content(std::string_view content)
 
 void feature_language_features::completion(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
-    int trigger_kind_int = params["context"]["triggerKind"].get<int>();
+    int trigger_kind_int = params.at("context").at("triggerKind").get<int>();
     parser_library::completion_trigger_kind trigger_kind = (trigger_kind_int >= 1 && trigger_kind_int <= 3)
         ? (parser_library::completion_trigger_kind)trigger_kind_int
         : parser_library::completion_trigger_kind::invoked;
@@ -178,7 +174,7 @@ void feature_language_features::completion(const json& id, const json& params)
     // no trigger character
     char trigger_char = '\0';
     if (trigger_kind == parser_library::completion_trigger_kind::trigger_character)
-        trigger_char = params["context"]["triggerCharacter"].get<std::string>()[0];
+        trigger_char = params.at("context").at("triggerCharacter").get<std::string>()[0];
 
     auto completion_list = ws_mngr_.completion(uri_to_path(document_uri).c_str(), pos, trigger_char, trigger_kind);
     json to_ret = json::value_t::null;
@@ -236,7 +232,7 @@ json convert_tokens_to_num_array(const std::vector<parser_library::token_info>&
 
 void feature_language_features::semantic_tokens(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
 
     auto tokens = ws_mngr_.semantic_tokens(uri_to_path(document_uri).c_str());
     json num_array = convert_tokens_to_num_array(tokens);
diff --git a/language_server/src/lsp/feature_text_synchronization.cpp b/language_server/src/lsp/feature_text_synchronization.cpp
index 2ac129a..87423fc 100644
--- a/language_server/src/lsp/feature_text_synchronization.cpp
+++ b/language_server/src/lsp/feature_text_synchronization.cpp
@@ -55,10 +55,10 @@ void feature_text_synchronization::initialize_feature(const json&)
 
 void feature_text_synchronization::on_did_open(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
-    std::string text = text_doc["text"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
+    std::string text = text_doc.at("text").get<std::string>();
 
     auto path = uri_to_path(doc_uri);
 
@@ -73,19 +73,19 @@ void feature_text_synchronization::on_did_open(const json&, const json& params)
 
 void feature_text_synchronization::on_did_change(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
 
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
 
-    json content_changes = params["contentChanges"];
+    json content_changes = params.at("contentChanges");
 
     std::vector<parser_library::document_change> changes;
     std::vector<std::string> texts(content_changes.size());
     size_t i = 0;
     for (auto& ch : content_changes)
     {
-        texts[i] = ch["text"].get<std::string>();
+        texts[i] = ch.at("text").get<std::string>();
 
         auto range_it = ch.find("range");
         if (range_it == ch.end())
@@ -94,17 +94,17 @@ void feature_text_synchronization::on_did_change(const json&, const json& params
         }
         else
         {
-            changes.emplace_back(parse_range(ch["range"]), texts[i].c_str(), texts[i].size());
+            changes.emplace_back(parse_range(ch.at("range")), texts[i].c_str(), texts[i].size());
         }
 
         ++i;
     }
-    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, &*changes.begin(), changes.size());
+    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, changes.data(), changes.size());
 }
 
 void feature_text_synchronization::on_did_close(const json&, const json& params)
 {
-    std::string uri = params["textDocument"]["uri"].get<std::string>();
+    std::string uri = params.at("textDocument").at("uri").get<std::string>();
 
     ws_mngr_.did_close_file(uri_to_path(uri).c_str());
 }
diff --git a/language_server/src/lsp/feature_workspace_folders.cpp b/language_server/src/lsp/feature_workspace_folders.cpp
index e3067e3..ca6a639 100644
--- a/language_server/src/lsp/feature_workspace_folders.cpp
+++ b/language_server/src/lsp/feature_workspace_folders.cpp
@@ -57,7 +57,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
     send_configuration_request();
 
     bool ws_folders_support = false;
-    auto capabs = initialize_params["capabilities"];
+    auto capabs = initialize_params.at("capabilities");
     auto ws = capabs.find("workspace");
     if (ws != capabs.end())
     {
@@ -68,7 +68,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
     if (ws_folders_support)
     {
-        add_workspaces(initialize_params["workspaceFolders"]);
+        add_workspaces(initialize_params.at("workspaceFolders"));
         return;
     }
 
@@ -92,8 +92,8 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
 void feature_workspace_folders::on_did_change_workspace_folders(const json&, const json& params)
 {
-    const auto& added = params["event"]["added"];
-    const auto& removed = params["event"]["removed"];
+    const auto& added = params.at("event").at("added");
+    const auto& removed = params.at("event").at("removed");
 
     remove_workspaces(removed);
     add_workspaces(added);
@@ -103,8 +103,8 @@ void feature_workspace_folders::add_workspaces(const json& added)
 {
     for (auto& it : added)
     {
-        const std::string& name = it["name"].get<std::string>();
-        std::string uri = it["uri"].get<std::string>();
+        const std::string& name = it.at("name").get<std::string>();
+        std::string uri = it.at("uri").get<std::string>();
 
         add_workspace(name, uri_to_path(uri));
     }
@@ -113,7 +113,7 @@ void feature_workspace_folders::remove_workspaces(const json& removed)
 {
     for (auto ws : removed)
     {
-        std::string uri = ws["uri"].get<std::string>();
+        std::string uri = ws.at("uri").get<std::string>();
 
         ws_mngr_.remove_workspace(uri_to_path(uri).c_str());
     }
@@ -125,13 +125,13 @@ void feature_workspace_folders::add_workspace(const std::string& name, const std
 
 void feature_workspace_folders::did_change_watched_files(const json&, const json& params)
 {
-    std::vector<json> changes = params["changes"];
+    std::vector<json> changes = params.at("changes");
     std::vector<std::string> paths;
     for (auto& change : changes)
     {
         try
         {
-            paths.push_back(uri_to_path(change["uri"].get<std::string>()));
+            paths.push_back(uri_to_path(change.at("uri").get<std::string>()));
         }
         catch (const std::system_error& e)
         {
@@ -163,7 +163,7 @@ void feature_workspace_folders::configuration(const json&, const json& params) c
         return;
     }
 
-    ws_mngr_.configuration_changed(parser_library::lib_config::load_from_json(params[0]));
+    ws_mngr_.configuration_changed(parser_library::lib_config::load_from_json(params.at(0)));
 }
 
 void feature_workspace_folders::did_change_configuration(const json&, const json&) { send_configuration_request(); }
diff --git a/language_server/src/lsp/lsp_server.cpp b/language_server/src/lsp/lsp_server.cpp
index 785d99c..b762909 100644
--- a/language_server/src/lsp/lsp_server.cpp
+++ b/language_server/src/lsp/lsp_server.cpp
@@ -65,7 +65,14 @@ void server::message_received(const json& message)
 
         method handler = handler_found->second;
         request_handlers_.erase(handler_found);
-        handler(id_found.value(), result_found.value());
+        try
+        {
+            handler(id_found.value(), result_found.value());
+        }
+        catch (const std::exception& e)
+        {
+            LOG_WARNING(std::string("There was an error with received response: ") + e.what());
+        }
         return;
     }
     else if (error_result_found != message.end())
@@ -75,7 +82,10 @@ void server::message_received(const json& message)
         if (message_found != error_result_found->end())
             warn_message = message_found->dump();
         else
-            warn_message = "Request with id " + id_found->dump() + " returned with unspecified error.";
+            warn_message = "Request with id " + (id_found != message.end() ? id_found->dump() : "null")
+                + " returned with unspecified error.";
+        if (id_found != message.end())
+            request_handlers_.erase(*id_found);
         LOG_WARNING(warn_message);
         return;
     }
@@ -83,29 +93,24 @@ void server::message_received(const json& message)
     auto params_found = message.find("params");
     auto method_found = message.find("method");
 
-    if (params_found == message.end() || method_found == message.end())
+    if (method_found == message.end() || !method_found->is_string())
     {
-        LOG_WARNING("Method or params missing from received request or notification");
+        LOG_WARNING("Method missing from received request or notification");
         return;
     }
 
-    try
+    // params are optional
+    const json params = params_found == message.end() ? json() : params_found.value();
+
+    if (id_found == message.end())
     {
-        if (id_found == message.end())
-        {
-            // notification
-            call_method(method_found.value().get<std::string>(), "", params_found.value());
-        }
-        else
-        {
-            // method
-            call_method(method_found.value().get<std::string>(), id_found.value(), params_found.value());
-        }
+        // notification
+        call_method(method_found.value().get<std::string>(), json(), params);
     }
-    catch (const std::exception& e)
+    else
     {
-        LOG_ERROR(e.what());
-        return;
+        // method
+        call_method(method_found.value().get<std::string>(), id_found.value(), params);
     }
 }
 
@@ -118,6 +123,8 @@ void server::request(const json& id, const std::string& requested_method, const
 
 void server::respond(const json& id, const std::string&, const json& args)
 {
+    if (id.is_null())
+        return; // notifications are not responded to
     json reply { { "jsonrpc", "2.0" }, { "id", id }, { "result", args } };
     send_message_->reply(reply);
 }
@@ -183,7 +190,15 @@ void server::on_initialize(json id, const json& param)
 
     for (auto& f : features_)
     {
-        f->initialize_feature(param);
+        try
+        {
+            f->initialize_feature(param);
+        }
+        catch (const std::exception& e)
+        {
+            // the request has been answered already
+            LOG_WARNING(std::string("Invalid initialization parameters: ") + e.what());
+        }
     }
 }
 
diff --git a/language_server/src/main.cpp b/language_server/src/main.cpp
index 339599c..68e9aa1 100644
--- a/language_server/src/main.cpp
+++ b/language_server/src/main.cpp
@@ -90,7 +90,7 @@ public:
 bool is_exit_notification(const nlohmann::json& msg)
 {
     auto method = msg.find("method");
-    return method != msg.end() && *method == "exit" && msg.find("id") == msg.end();
+    return method != msg.end() && *method == "exit";
 }
 
 } // namespace
diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 10f04bd..e2a828c 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -143,9 +143,9 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
     constexpr const char* didChange = "textDocument/didChange";
 
     auto found = r.find("method");
-    if (found == r.end())
+    if (found == r.end() || !found->is_string())
         return "";
-    auto method = r["method"].get<std::string>();
+    auto method = found->get<std::string>();
     if (method.substr(0, 12) == "textDocument")
     {
         if (is_parsing_required)
@@ -155,7 +155,17 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
             else
                 *is_parsing_required = false;
         }
-        return r["params"]["textDocument"]["uri"].get<std::string>();
+        // the message may be malformed, the server deals with that later
+        auto params = r.find("params");
+        if (params == r.end())
+            return std::string();
+        auto document = params->find("textDocument");
+        if (document == params->end())
+            return std::string();
+        auto uri = document->find("uri");
+        if (uri == document->end() || !uri->is_string())
+            return std::string();
+        return uri->get<std::string>();
     }
     return std::string();
 }
\ No newline at end of file
diff --git a/language_server/src/server.cpp b/language_server/src/server.cpp
index 56d4fb7..d14d3c5 100644
--- a/language_server/src/server.cpp
+++ b/language_server/src/server.cpp
@@ -24,6 +24,10 @@
 
 namespace hlasm_plugin::language_server {
 
+// error codes defined by JSON-RPC
+constexpr const int method_not_found = -32601;
+constexpr const int invalid_params = -32602;
+
 server::server(parser_library::workspace_manager& ws_mngr)
     : ws_mngr_(ws_mngr)
 {}
@@ -50,10 +54,11 @@ void server::call_method(const std::string& method, const json& id, const json&
         {
             (*found).second(id, args);
         }
-        catch (const nlohmann::basic_json<>::exception& e)
+        catch (const std::exception& e)
         {
-            (void)e;
             LOG_WARNING("There is an error regarding the JSON or LSP:" + std::string(e.what()));
+            if (!id.is_null())
+                respond_error(id, method, invalid_params, "The request could not be processed.", json());
         }
     }
     else
@@ -61,6 +66,8 @@ void server::call_method(const std::string& method, const json& id, const json&
         std::ostringstream ss;
         ss << "Method " << method << " is not available on this server.";
         LOG_WARNING(ss.str());
+        if (!id.is_null())
+            respond_error(id, method, method_not_found, ss.str(), json());
     }
 }
 
diff --git a/language_server/src/server.h b/language_server/src/server.h
index f2cdd89..99182b6 100644
--- a/language_server/src/server.h
+++ b/language_server/src/server.h
@@ -70,6 +70,7 @@ protected:
     void register_feature_methods();
 
     // Calls a method that is registered in methods_ with the specified name with arguments and id of request.
+    // The id is null for notifications, nothing is ever responded to those.
     void call_method(const std::string& method, const json& id, const json& args);
 };
 
-- 
2.43.0


From 95cd7b9a9dee9a06a3d899342e3e95c22f91196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:46 +0000
Subject: [PATCH 04/31] fix: messages of a debug session leave in the order of
 their sequence numbers

---
 language_server/src/dap/dap_server.cpp | 3 +++
 language_server/src/dap/dap_server.h   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/language_server/src/dap/dap_server.cpp b/language_server/src/dap/dap_server.cpp
index e278a4a..3d64d51 100644
--- a/language_server/src/dap/dap_server.cpp
+++ b/language_server/src/dap/dap_server.cpp
@@ -36,6 +36,7 @@ void server::request(const json&, const std::string&, const json&, method)
 
 void server::respond(const json& request_seq, const std::string& requested_command, const json& args)
 {
+    std::lock_guard guard(send_mutex_);
     send_message_->reply(json { { "seq", ++last_seq_ },
         { "type", "response" },
         { "request_seq", request_seq },
@@ -46,6 +47,7 @@ void server::respond(const json& request_seq, const std::string& requested_comma
 
 void server::notify(const std::string& method, const json& args)
 {
+    std::lock_guard guard(send_mutex_);
     send_message_->reply(json { { "seq", ++last_seq_ }, { "type", "event" }, { "event", method }, { "body", args } });
 }
 
@@ -55,6 +57,7 @@ void server::respond_error(const json& request_seq,
     const std::string& err_message,
     const json& error)
 {
+    std::lock_guard guard(send_mutex_);
     send_message_->reply(json { { "seq", ++last_seq_ },
         { "type", "response" },
         { "request_seq", request_seq },
diff --git a/language_server/src/dap/dap_server.h b/language_server/src/dap/dap_server.h
index 8146ace..be01616 100644
--- a/language_server/src/dap/dap_server.h
+++ b/language_server/src/dap/dap_server.h
@@ -17,6 +17,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_set>
 
 #include "../common_types.h"
@@ -48,7 +49,9 @@ public:
     void message_received(const json& message) override;
 
 private:
-    std::atomic<uint64_t> last_seq_ = 0;
+    // messages are sent by the worker and the debugger thread, they have to leave in the order of their numbers
+    std::mutex send_mutex_;
+    uint64_t last_seq_ = 0;
 
     void register_methods();
 
-- 
2.43.0


From c6ecbcd88fd0a0933c69282394e2124427e1e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:46 +0000
Subject: [PATCH 05/31] fix: synchronization of the debugger

- continue could be lost when it came just before the debugged thread fell asleep
- the variable mutex was unlocked twice when a disconnect came at a stop
- next accessed the context of the analyzer, which does not have to exist
- a second launch replaced a running thread
---
 parser_library/src/debugging/debugger.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index e89d7cb..2d18047 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -95,7 +95,7 @@ class debugger::impl final : public processing::statement_analyzer
     range next_stmt_range_;
 
     // True, if disconnect request was received
-    bool disconnected_ = false;
+    std::atomic<bool> disconnected_ = false;
 
     // Cancellation token for parsing
     std::atomic<bool> cancel_ = false;
@@ -127,7 +127,9 @@ public:
     void launch(
         std::string_view source, workspaces::workspace& workspace, bool stop_on_entry, parse_lib_provider* lib_provider)
     {
-        // TODO: check if already running???
+        if (thread_.joinable())
+            return; // already running
+
         auto open_code = workspace.get_processor_file(std::string(source));
         opencode_source_path_ = open_code->get_file_name();
         stop_on_next_stmt_ = stop_on_entry;
@@ -193,9 +195,13 @@ public:
 
             std::unique_lock<std::mutex> lck(control_mtx);
             if (disconnected_)
+            {
+                variable_mtx_.lock();
                 return;
+            }
             stop_on_next_stmt_ = false;
             step_over_ = false;
+            step_over_depth_ = ctx_->processing_stack().size();
             next_stmt_range_ = stmt_range;
 
             continue_ = false;
@@ -214,7 +220,6 @@ public:
         {
             std::lock_guard<std::mutex> lck(control_mtx);
             step_over_ = true;
-            step_over_depth_ = ctx_->processing_stack().size();
             continue_ = true;
         }
         con_var.notify_all();
@@ -249,8 +254,11 @@ public:
 
     void continue_debug()
     {
-        stop_on_next_stmt_ = false;
-        continue_ = true;
+        {
+            std::lock_guard<std::mutex> lck(control_mtx);
+            stop_on_next_stmt_ = false;
+            continue_ = true;
+        }
         con_var.notify_all();
     }
 
-- 
2.43.0


From 87361d46519b3242c948c58dd28600754dcf42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:19 +0000
Subject: [PATCH 06/31] fix: line index after an edit that joins or splits CR
 and LF

---
 parser_library/src/workspaces/file_impl.cpp | 45 +--------------------
 1 file changed, 2 insertions(+), 43 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index efd228d..530dc24 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -127,54 +127,13 @@ bool file_impl::get_lsp_editing() { return editing_; }
 // applies a change to the text and updates line begginings
 void file_impl::did_change(range range, std::string new_text)
 {
-    size_t range_end_line = (size_t)range.end.line;
-    size_t range_start_line = (size_t)range.start.line;
-
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
 
     text_.replace(begin, end - begin, new_text);
 
-    std::vector<size_t> new_lines;
-
-    find_newlines(new_text, new_lines);
-
-
-    size_t old_lines_count = range_end_line - range_start_line;
-    size_t new_lines_count = new_lines.size();
-
-    size_t char_diff = new_text.size() - (end - begin);
-
-    // add or remove lines depending on the difference
-    if (new_lines_count > old_lines_count)
-    {
-        size_t diff = new_lines_count - old_lines_count;
-        lines_ind_.insert(lines_ind_.end(), diff, 0);
-
-        for (size_t i = lines_ind_.size() - 1; i > range_end_line + diff; --i)
-        {
-            lines_ind_[i] = lines_ind_[i - diff] + char_diff;
-        }
-    }
-    else
-    {
-        size_t diff = old_lines_count - new_lines_count;
-
-        for (size_t i = range_start_line + 1 + new_lines_count; i < lines_ind_.size() - diff; ++i)
-        {
-            lines_ind_[i] = lines_ind_[i + diff] + char_diff;
-        }
-
-        for (size_t i = 0; i < diff; ++i)
-            lines_ind_.pop_back();
-    }
-
-
-    for (size_t i = range_start_line + 1; i <= range_start_line + new_lines_count; ++i)
-    {
-        lines_ind_[i] = new_lines[i - (size_t)range_start_line - 1] + begin;
-    }
-
+    // the change may join or split a CR LF sequence at its borders
+    lines_ind_ = create_line_indices(text_);
 
     ++version_;
 }
-- 
2.43.0


From fe627bdb373c05bbf07de49186aec21dd58d73c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:23 +0000
Subject: [PATCH 07/31] fix: loading of files that cannot be read or change
 meanwhile

A failing tellg made the server allocate (size_t)-1 bytes, a failing or short
read left zero bytes in the text.
---
 parser_library/src/workspaces/file_impl.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 530dc24..d8f8faf 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -45,15 +45,19 @@ void file_impl::load_text()
 {
     std::ifstream fin(file_name_, std::ios::in | std::ios::binary);
 
-    if (fin)
+    // the size is not known in advance: the file may be changing or may not be a regular file
+    std::string text;
+    if (char buffer[4096]; fin)
+    {
+        while (fin.read(buffer, sizeof(buffer)), fin.gcount() > 0)
+            text.append(buffer, (size_t)fin.gcount());
+    }
+
+    if (fin.is_open() && !fin.bad())
     {
-        fin.seekg(0, std::ios::end);
-        text_.resize((size_t)fin.tellg());
-        fin.seekg(0, std::ios::beg);
-        fin.read(&text_[0], text_.size());
         fin.close();
 
-        text_ = replace_non_utf8_chars(text_);
+        text_ = replace_non_utf8_chars(text);
 
         up_to_date_ = true;
         bad_ = false;
-- 
2.43.0


From a66570505f5d2ba18c783ed7a5e3f3b856ec7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:00 +0000
Subject: [PATCH 08/31] fix: a library folder that cannot be examined is
 reported instead of aborting the analysis

---
 utils/src/native_path.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/src/native_path.cpp b/utils/src/native_path.cpp
index e0111f3..94c9153 100644
--- a/utils/src/native_path.cpp
+++ b/utils/src/native_path.cpp
@@ -40,16 +40,16 @@ bool equal(const std::filesystem::path& left, const std::filesystem::path& right
 list_directory_rc list_directory_regular_files(
     const std::filesystem::path& d, std::function<void(const std::filesystem::path&)> h)
 {
-    std::filesystem::directory_entry dir(d);
+    try
+    {
+        std::filesystem::directory_entry dir(d);
 
-    if (!dir.exists())
-        return list_directory_rc::not_exists;
+        if (!dir.exists())
+            return list_directory_rc::not_exists;
 
-    if (!dir.is_directory())
-        return list_directory_rc::not_a_directory;
+        if (!dir.is_directory())
+            return list_directory_rc::not_a_directory;
 
-    try
-    {
         std::filesystem::directory_iterator it(dir);
 
         for (auto& p : it)
-- 
2.43.0


From a10899d72517a83812b2f62b3396225a70cdeba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:00 +0000
Subject: [PATCH 09/31] fix: an invalid pgm_conf.json left programs that refer
 to dropped processor groups

---
 parser_library/src/workspaces/workspace.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 1afd391..adb30c2 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -427,7 +427,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(proc_grps_file->get_text()).get_to(proc_groups);
-        proc_grps_.clear();
         for (const auto& pg : proc_groups.pgroups)
             if (!pg.asm_options.valid())
                 config_diags_.push_back(diagnostic_s::error_W005(proc_grps_file->get_file_name(), pg.name));
@@ -448,8 +447,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(pgm_conf_file->get_text()).get_to(pgm_config);
-        exact_pgm_conf_.clear();
-        regex_pgm_conf_.clear();
     }
     catch (const nlohmann::json::exception&)
     {
@@ -457,6 +454,11 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
         return false;
     }
 
+    // the programs refer to the processor groups, so the old configuration is only dropped as a whole
+    proc_grps_.clear();
+    exact_pgm_conf_.clear();
+    regex_pgm_conf_.clear();
+
     return true;
 }
 bool workspace::is_wildcard(const std::string& str)
-- 
2.43.0


From f6d32b82519d46e8277199e3f9da51c0a6aff076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:00 +0000
Subject: [PATCH 10/31] fix: requests on files that have not been analyzed yet

---
 .../src/workspaces/processor_file_impl.cpp        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index d7f6cd1..deefdde 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -97,14 +97,23 @@ const std::set<std::string>& processor_file_impl::dependencies() { return depend
 
 const semantics::lines_info& processor_file_impl::get_hl_info()
 {
-    return analyzer_->source_processor().semantic_tokens();
+    static const semantics::lines_info empty_lines;
+    return analyzer_ ? analyzer_->source_processor().semantic_tokens() : empty_lines;
 }
 
-const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider() { return *analyzer_->context().lsp_ctx; }
+const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider()
+{
+    static const lsp::lsp_context empty_context;
+    return analyzer_ ? *analyzer_->context().lsp_ctx : empty_context;
+}
 
 const std::set<std::string>& processor_file_impl::files_to_close() { return files_to_close_; }
 
-const performance_metrics& processor_file_impl::get_metrics() { return analyzer_->get_metrics(); }
+const performance_metrics& processor_file_impl::get_metrics()
+{
+    static const performance_metrics empty_metrics;
+    return analyzer_ ? analyzer_->get_metrics() : empty_metrics;
+}
 
 bool processor_file_impl::parse_inner(analyzer& new_analyzer)
 {
-- 
2.43.0


From 137a9c4fa1f2fa313e8d8944ed4e2da1fae20b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:00 +0000
Subject: [PATCH 11/31] fix: leftovers of cancelled parsing

- files visited by a parsing that was cancelled were not recorded as
  dependencies, so they were never closed and their diagnostics stayed
- incomplete diagnostics of a cancelled parsing were published with the next
  change of another file
- the copy of a file that is being debugged forgot its dependencies
---
 .../src/workspaces/processor_file_impl.cpp    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index deefdde..f7d59f8 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -34,7 +34,11 @@ processor_file_impl::processor_file_impl(file_impl&& f_impl, std::atomic<bool>*
 processor_file_impl::processor_file_impl(const file_impl& file, std::atomic<bool>* cancel)
     : file_impl(file)
     , cancel_(cancel)
-{}
+{
+    // the copy replaces the original, so it is responsible for closing the dependencies
+    if (auto processor = dynamic_cast<const processor_file_impl*>(&file))
+        dependencies_ = processor->dependencies_;
+}
 
 void processor_file_impl::collect_diags() const { file_impl::collect_diags(); }
 
@@ -48,13 +52,13 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 
     auto res = parse_inner(*analyzer_);
 
+    // if the parsing was cancelled, the files visited so far are added to the former dependencies,
+    // so they are closed when they turn out not to be needed
     if (!cancel_ || !*cancel_)
-    {
         dependencies_.clear();
-        for (auto& file : analyzer_->hlasm_ctx().get_visited_files())
-            if (file != get_file_name())
-                dependencies_.insert(file);
-    }
+    for (auto& file : analyzer_->hlasm_ctx().get_visited_files())
+        if (file != get_file_name())
+            dependencies_.insert(file);
 
     files_to_close_.clear();
     // files that used to be dependencies but are not anymore should be closed internally
@@ -117,6 +121,7 @@ const performance_metrics& processor_file_impl::get_metrics()
 
 bool processor_file_impl::parse_inner(analyzer& new_analyzer)
 {
+    auto former_diags = std::move(diags());
     diags().clear();
 
     new_analyzer.analyze(cancel_);
@@ -128,7 +133,11 @@ bool processor_file_impl::parse_inner(analyzer& new_analyzer)
         parse_info_updated_ = true;
 
     if (cancel_ && *cancel_)
+    {
+        // the diagnostics are incomplete
+        diags() = std::move(former_diags);
         return false;
+    }
     return true;
 }
 
-- 
2.43.0


From d95d515388aa72b6de98d472eda5475ae750d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:00 +0000
Subject: [PATCH 12/31] fix: content of files that were closed or changed on
 the disk

The text of a closed document and the text loaded earlier were used even
though the file on the disk was different.
---
 parser_library/src/workspaces/file_impl.cpp | 7 ++++++-
 parser_library/src/workspaces/workspace.cpp | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index d8f8faf..9719b10 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -151,7 +151,12 @@ void file_impl::did_change(std::string new_text)
     ++version_;
 }
 
-void file_impl::did_close() { editing_ = false; }
+void file_impl::did_close()
+{
+    editing_ = false;
+    // from now on, the content on the disk is what matters
+    up_to_date_ = false;
+}
 
 const std::string& file_impl::get_text_ref() { return text_; }
 
diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index adb30c2..eaf8745 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -266,6 +266,12 @@ void workspace::did_change_file(const std::string file_uri, const document_chang
 void workspace::did_change_watched_files(const std::string& file_uri)
 {
     refresh_libraries();
+    // forget the content that was loaded from the disk, unless the file is open in the editor
+    if (auto file = file_manager_.find(file_uri); !file || !file->get_lsp_editing())
+    {
+        file.reset();
+        file_manager_.did_close_file(file_uri);
+    }
     parse_file(file_uri);
 }
 
-- 
2.43.0


From c2fd532d99887d4e8db9ef41301dedbcb8c7e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:30 +0000
Subject: [PATCH 13/31] fix: workspace folders

Folders were stored by name, but removed and matched by path: folders could not
be removed, two folders of the same name collided and a folder also governed
its siblings whose names began with its own name.
---
 parser_library/src/workspace_manager_impl.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspace_manager_impl.h b/parser_library/src/workspace_manager_impl.h
index 7b087d3..fba0749 100644
--- a/parser_library/src/workspace_manager_impl.h
+++ b/parser_library/src/workspace_manager_impl.h
@@ -54,7 +54,7 @@ public:
 
     void add_workspace(std::string name, std::string uri)
     {
-        auto ws = workspaces_.emplace(name, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
+        auto ws = workspaces_.emplace(uri, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
         ws.first->second.set_message_consumer(message_consumer_);
         ws.first->second.open();
 
@@ -214,8 +214,11 @@ private:
         workspaces::workspace* max_ws = nullptr;
         for (auto& ws : workspaces_)
         {
-            size_t match = prefix_match(document_uri, ws.second.uri());
-            if (match > max && match >= ws.first.size())
+            const auto& uri = ws.second.uri();
+            // the whole path of the folder has to match
+            if (size_t match = prefix_match(document_uri, uri); match > max && match == uri.size()
+                && (match == document_uri.size() || uri.back() == '/' || uri.back() == '\\'
+                    || document_uri[match] == '/' || document_uri[match] == '\\'))
             {
                 max = match;
                 max_ws = &ws.second;
@@ -267,6 +270,7 @@ private:
     }
     std::vector<debugging::variable*> temp_variables_;
 
+    // key is the path of the workspace folder
     std::unordered_map<std::string, workspaces::workspace> workspaces_;
     workspaces::file_manager_impl file_manager_;
     workspaces::workspace implicit_workspace_;
-- 
2.43.0


From 2a544599e804d7eecaadcd2bd33a6bad22c2c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:51 +0000
Subject: [PATCH 14/31] fix: a cancelled analysis of a nested file left the
 shared context inconsistent

A macro or copy member whose analysis was cancelled did not leave the
processing stack of the program, so the program was analyzed on with the
stack of the member, which ended in reading out of bounds.
---
 parser_library/src/processing/processing_manager.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser_library/src/processing/processing_manager.cpp b/parser_library/src/processing/processing_manager.cpp
index 371a6fa..26c1213 100644
--- a/parser_library/src/processing/processing_manager.cpp
+++ b/parser_library/src/processing/processing_manager.cpp
@@ -112,6 +112,10 @@ void processing_manager::start_processing(std::atomic<bool>* cancel)
 
         auto stmt = prov.get_next(proc);
 
+        // the rest of the analysis is meaningless, if the analysis of a nested file was cancelled
+        if (cancel && *cancel)
+            break;
+
         if (stmt)
         {
             update_metrics(proc.kind, prov.kind, hlasm_ctx_.metrics);
@@ -121,6 +125,13 @@ void processing_manager::start_processing(std::atomic<bool>* cancel)
             proc.process_statement(std::move(stmt));
         }
     }
+
+    // if the processing was cancelled, restore the state of the context that is shared with the outer analysis
+    for (; !procs_.empty() && procs_.back()->kind != processing_kind::ORDINARY; procs_.pop_back())
+    {
+        collect_diags_from_child(*procs_.back());
+        hlasm_ctx_.pop_statement_processing();
+    }
 }
 
 void processing_manager::register_stmt_analyzer(statement_analyzer* stmt_analyzer)
-- 
2.43.0


From 90d34d8e67b8b89eb128684bb697589d3d2505f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:02 +0000
Subject: [PATCH 15/31] fix: an invalid library member is a dependency of the
 program

A file that was found for an operation code but does not define the macro was
not recorded among the dependencies, so its diagnostics stayed forever and its
changes had no effect on the program.
---
 parser_library/src/context/hlasm_context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index ebac7d8..8074a6a 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -259,7 +259,6 @@ hlasm_context::hlasm_context(std::string file_name, asm_option asm_options)
     , ord_ctx(ids_)
 {
     scope_stack_.emplace_back();
-    visited_files_.insert(file_name);
     push_statement_processing(processing::processing_kind::ORDINARY, std::move(file_name));
     add_global_system_vars();
 }
@@ -320,6 +319,8 @@ void hlasm_context::push_statement_processing(const processing::processing_kind
 
 void hlasm_context::push_statement_processing(const processing::processing_kind kind, std::string file_name)
 {
+    // even a member that turns out to be invalid is a file the program depends on
+    visited_files_.insert(file_name);
     source_stack_.emplace_back(std::move(file_name));
 
     proc_stack_.emplace_back(kind, true);
-- 
2.43.0


From e6408759876cd0963c1617ca4ef1f9a640bb7dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:46 +0000
Subject: [PATCH 16/31] fix: a library member that refers to itself freed its
 running analyzer

---
 parser_library/src/workspaces/processor_file_impl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index f7d59f8..535ed45 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -75,10 +75,15 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 parse_result processor_file_impl::parse_macro(
     parse_lib_provider& lib_provider, analyzing_context ctx, const library_data data)
 {
-    analyzer_ =
+    // the file may refer to itself, so the analyzer has to be kept apart until the analysis is finished
+    auto new_analyzer =
         std::make_unique<analyzer>(get_text(), get_file_name(), std::move(ctx), lib_provider, data, get_lsp_editing());
 
-    return parse_inner(*analyzer_);
+    auto res = parse_inner(*new_analyzer);
+
+    analyzer_ = std::move(new_analyzer);
+
+    return res;
 }
 
 parse_result processor_file_impl::parse_no_lsp_update(
-- 
2.43.0


From b7e5c2425e4e74f5b4c55384ff802410b4b3e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:46 +0000
Subject: [PATCH 17/31] fix: copied macro whose prototype is another
 instruction

---
 .../statement_processors/macrodef_processor.cpp        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index 407e4b9..2596ba8 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -251,8 +251,14 @@ void macrodef_processor::process_prototype_operand(
             continue;
         }
 
-        auto tmp = op->access_mac()->access_chain();
-        assert(tmp);
+        auto mac_op = op->access_mac();
+        auto tmp = mac_op ? mac_op->access_chain() : nullptr;
+        if (!tmp) // a statement of a copy member that was processed as another instruction
+        {
+            add_diagnostic(diagnostic_op::error_E043(op->operand_range));
+            result_.prototype.symbolic_params.emplace_back(nullptr, nullptr);
+            continue;
+        }
 
         auto& tmp_chain = tmp->chain;
 
-- 
2.43.0


From a5fdf5dc888719e868ee226ae05c2c855fc4ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:45 +0000
Subject: [PATCH 18/31] fix: a malformed change of a document cancelled the
 analysis of the preceding ones

---
 language_server/src/request_manager.cpp | 44 +++++++++++++++++++++----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index e2a828c..0b1a460 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -14,6 +14,8 @@
 
 #include "request_manager.h"
 
+#include <algorithm>
+
 using namespace hlasm_plugin::language_server;
 
 request::request(json message, server* executing_server)
@@ -137,6 +139,38 @@ void request_manager::finish_server_requests(server* to_finish)
 }
 
 
+namespace {
+bool is_position(const json& p)
+{
+    return p.is_object() && p.contains("line") && p["line"].is_number() && p.contains("character")
+        && p["character"].is_number();
+}
+
+bool is_content_change(const json& ch)
+{
+    if (!ch.is_object() || !ch.contains("text") || !ch["text"].is_string())
+        return false;
+    auto range = ch.find("range");
+    return range == ch.end()
+        || (range->is_object() && range->contains("start") && is_position((*range)["start"]) && range->contains("end")
+            && is_position((*range)["end"]));
+}
+
+// a malformed notification is going to be refused, so it must not supersede the preceding ones
+bool provides_new_text(const json& params, bool open)
+{
+    const auto& document = params["textDocument"];
+    if (!document.contains("version") || !document["version"].is_number())
+        return false;
+    if (open)
+        return document.contains("text") && document["text"].is_string();
+
+    auto changes = params.find("contentChanges");
+    return changes != params.end() && changes->is_array()
+        && std::all_of(changes->begin(), changes->end(), is_content_change);
+}
+} // namespace
+
 std::string request_manager::get_request_file_(json r, bool* is_parsing_required) const
 {
     constexpr const char* didOpen = "textDocument/didOpen";
@@ -148,13 +182,6 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
     auto method = found->get<std::string>();
     if (method.substr(0, 12) == "textDocument")
     {
-        if (is_parsing_required)
-        {
-            if (method == didOpen || method == didChange)
-                *is_parsing_required = true;
-            else
-                *is_parsing_required = false;
-        }
         // the message may be malformed, the server deals with that later
         auto params = r.find("params");
         if (params == r.end())
@@ -165,6 +192,9 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
         auto uri = document->find("uri");
         if (uri == document->end() || !uri->is_string())
             return std::string();
+        if (is_parsing_required)
+            *is_parsing_required =
+                (method == didOpen || method == didChange) && provides_new_text(*params, method == didOpen);
         return uri->get<std::string>();
     }
     return std::string();
-- 
2.43.0


From ee3f351884ccbf345be4bc71628990c99ef050a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:07 +0000
Subject: [PATCH 19/31] fix: the macro tracers used libraries, files and
 configuration of the language server unsynchronized

---
 .../src/debugging/debug_lib_provider.h        | 30 ++++++-------
 parser_library/src/debugging/debugger.cpp     | 18 ++++----
 parser_library/src/workspaces/file.h          |  2 +
 parser_library/src/workspaces/file_impl.cpp   | 44 ++++++++++++-------
 parser_library/src/workspaces/file_impl.h     |  1 +
 .../src/workspaces/file_manager_impl.cpp      |  2 +
 .../src/workspaces/file_manager_impl.h        |  2 +-
 .../src/workspaces/library_local.cpp          | 18 +++++---
 parser_library/src/workspaces/library_local.h |  6 +++
 .../src/workspaces/processor_file_impl.cpp    |  4 +-
 .../src/workspaces/processor_group.h          |  4 +-
 parser_library/src/workspaces/workspace.cpp   | 10 +++++
 parser_library/src/workspaces/workspace.h     |  5 +++
 13 files changed, 96 insertions(+), 50 deletions(-)

diff --git a/parser_library/src/debugging/debug_lib_provider.h b/parser_library/src/debugging/debug_lib_provider.h
index 25dca25..193a9fe 100644
--- a/parser_library/src/debugging/debug_lib_provider.h
+++ b/parser_library/src/debugging/debug_lib_provider.h
@@ -15,6 +15,11 @@
 #ifndef HLASMPLUGIN_PARSERLIBRARY_DEBUG_LIB_PROVIDER_H
 #define HLASMPLUGIN_PARSERLIBRARY_DEBUG_LIB_PROVIDER_H
 
+#include <memory>
+#include <string>
+#include <tuple>
+#include <vector>
+
 #include "workspaces/workspace.h"
 
 namespace hlasm_plugin::parser_library::debugging {
@@ -24,18 +29,19 @@ namespace hlasm_plugin::parser_library::debugging {
 // parsing that do not collide with LSP.
 class debug_lib_provider : public workspaces::parse_lib_provider
 {
-    const workspaces::workspace& ws_;
+    std::vector<std::shared_ptr<workspaces::library>> libraries_;
+    asm_option asm_options_;
 
 public:
-    debug_lib_provider(const workspaces::workspace& ws)
-        : ws_(ws)
-    {}
+    debug_lib_provider(const workspaces::workspace& ws, const std::string& program)
+    {
+        std::tie(libraries_, asm_options_) = ws.get_proc_grp_data(program);
+    }
 
     workspaces::parse_result parse_library(
         const std::string& library, analyzing_context ctx, const workspaces::library_data data) override
     {
-        auto& proc_grp = ws_.get_proc_grp_by_program(ctx.hlasm_ctx->opencode_file_name());
-        for (auto&& lib : proc_grp.libraries())
+        for (auto&& lib : libraries_)
         {
             std::shared_ptr<workspaces::processor> found = lib->find_file(library);
             if (found)
@@ -45,10 +51,9 @@ public:
         return false;
     }
 
-    bool has_library(const std::string& library, const std::string& program) const override
+    bool has_library(const std::string& library, const std::string&) const override
     {
-        auto& proc_grp = ws_.get_proc_grp_by_program(program);
-        for (auto&& lib : proc_grp.libraries())
+        for (auto&& lib : libraries_)
         {
             std::shared_ptr<workspaces::processor> found = lib->find_file(library);
             if (found)
@@ -57,12 +62,7 @@ public:
 
         return false;
     }
-    const asm_option& get_asm_options(const std::string& file_name) override
-    {
-        auto& proc_grp = ws_.get_proc_grp_by_program(file_name);
-
-        return proc_grp.asm_options();
-    }
+    const asm_option& get_asm_options(const std::string&) override { return asm_options_; }
 };
 
 } // namespace hlasm_plugin::parser_library::debugging
diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 2d18047..3708de4 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -19,7 +19,6 @@
 #include <condition_variable>
 #include <memory>
 #include <mutex>
-#include <optional>
 #include <string_view>
 #include <thread>
 #include <unordered_map>
@@ -134,16 +133,19 @@ public:
         opencode_source_path_ = open_code->get_file_name();
         stop_on_next_stmt_ = stop_on_entry;
 
-        thread_ = std::thread([this, open_code = std::move(open_code), &workspace, lib_provider]() {
+        // the workspace may change or cease to exist while the program is being traced
+        std::shared_ptr<debug_lib_provider> provider;
+        if (!lib_provider)
+        {
+            provider = std::make_shared<debug_lib_provider>(workspace, opencode_source_path_);
+            lib_provider = provider.get();
+        }
+
+        thread_ = std::thread([this, text = open_code->get_text_copy(), lib_provider, provider]() {
             std::lock_guard<std::mutex> guard(variable_mtx_); // Lock the mutex while analyzer is running, unlock once
                                                               // it is stopped and waiting in the statement method
 
-            std::optional<debug_lib_provider> provider;
-            if (!lib_provider)
-                provider.emplace(workspace);
-
-            analyzer a(
-                open_code->get_text(), open_code->get_file_name(), lib_provider ? *lib_provider : provider.value());
+            analyzer a(text, opencode_source_path_, *lib_provider);
 
             a.register_stmt_analyzer(this);
 
diff --git a/parser_library/src/workspaces/file.h b/parser_library/src/workspaces/file.h
index 71b39b6..4e8135e 100644
--- a/parser_library/src/workspaces/file.h
+++ b/parser_library/src/workspaces/file.h
@@ -34,6 +34,8 @@ public:
     virtual const file_uri& get_file_name() = 0;
     // Gets contents of file either by loading from disk or from LSP.
     virtual const std::string& get_text() = 0;
+    // Gets contents of file without updating it, so it may be called along with the language server.
+    virtual std::string get_text_copy() = 0;
     // Returns whether file is bad - bad file cannot be loaded from disk.
     // LSP files are never bad.
     virtual bool update_and_get_bad() = 0;
diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 9719b10..c3c525c 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -20,6 +20,8 @@
 #include <exception>
 #include <fstream>
 #include <locale>
+#include <mutex>
+#include <optional>
 #include <string>
 
 
@@ -41,9 +43,13 @@ const std::string& file_impl::get_text()
     return text_;
 }
 
-void file_impl::load_text()
+namespace {
+// guards the text of files which is being replaced by the content on the disk
+std::mutex load_mutex;
+
+std::optional<std::string> read_file(const std::string& file_name)
 {
-    std::ifstream fin(file_name_, std::ios::in | std::ios::binary);
+    std::ifstream fin(file_name, std::ios::in | std::ios::binary);
 
     // the size is not known in advance: the file may be changing or may not be a regular file
     std::string text;
@@ -54,23 +60,29 @@ void file_impl::load_text()
     }
 
     if (fin.is_open() && !fin.bad())
-    {
-        fin.close();
-
-        text_ = replace_non_utf8_chars(text);
+        return file_impl::replace_non_utf8_chars(text);
+    return std::nullopt;
+}
+} // namespace
 
-        up_to_date_ = true;
-        bad_ = false;
-        return;
-    }
-    else
+std::string file_impl::get_text_copy()
+{
     {
-        text_ = "";
-        up_to_date_ = false;
-        bad_ = true;
-        // add_diagnostic(diagnostic_s{file_name_, {}, diagnostic_severity::error,
-        //	"W0001", "HLASM plugin", "Could not open file" + file_name_, {} });
+        std::lock_guard guard(load_mutex);
+        if (up_to_date_)
+            return text_;
     }
+    return read_file(file_name_).value_or("");
+}
+
+void file_impl::load_text()
+{
+    auto text = read_file(file_name_);
+
+    std::lock_guard guard(load_mutex);
+    up_to_date_ = text.has_value();
+    bad_ = !text.has_value();
+    text_ = std::move(text).value_or("");
 }
 
 // adds positions of newlines into vector 'lines'
diff --git a/parser_library/src/workspaces/file_impl.h b/parser_library/src/workspaces/file_impl.h
index 7df4dae..a9fbd2f 100644
--- a/parser_library/src/workspaces/file_impl.h
+++ b/parser_library/src/workspaces/file_impl.h
@@ -40,6 +40,7 @@ public:
 
     const file_uri& get_file_name() override;
     const std::string& get_text() override;
+    std::string get_text_copy() override;
     version_t get_version() override;
     bool update_and_get_bad() override;
     bool get_lsp_editing() override;
diff --git a/parser_library/src/workspaces/file_manager_impl.cpp b/parser_library/src/workspaces/file_manager_impl.cpp
index 43d43cb..d82905c 100644
--- a/parser_library/src/workspaces/file_manager_impl.cpp
+++ b/parser_library/src/workspaces/file_manager_impl.cpp
@@ -24,6 +24,7 @@ namespace hlasm_plugin::parser_library::workspaces {
 
 void file_manager_impl::collect_diags() const
 {
+    std::lock_guard guard(files_mutex);
     for (auto& it : files_)
     {
         collect_diags_from_child(*it.second);
@@ -110,6 +111,7 @@ processor_file_ptr file_manager_impl::find_processor_file(const std::string& key
 
 std::vector<processor_file*> file_manager_impl::list_updated_files()
 {
+    std::lock_guard guard(files_mutex);
     std::vector<processor_file*> list;
     for (auto& item : files_)
     {
diff --git a/parser_library/src/workspaces/file_manager_impl.h b/parser_library/src/workspaces/file_manager_impl.h
index 77a5f29..a321fe9 100644
--- a/parser_library/src/workspaces/file_manager_impl.h
+++ b/parser_library/src/workspaces/file_manager_impl.h
@@ -66,7 +66,7 @@ protected:
     std::unordered_map<std::string, std::shared_ptr<file_impl>> files_;
 
 private:
-    std::mutex files_mutex;
+    mutable std::mutex files_mutex;
 
     std::atomic<bool>* cancel_;
 
diff --git a/parser_library/src/workspaces/library_local.cpp b/parser_library/src/workspaces/library_local.cpp
index 223e1e1..893775c 100644
--- a/parser_library/src/workspaces/library_local.cpp
+++ b/parser_library/src/workspaces/library_local.cpp
@@ -73,16 +73,19 @@ library_local::library_local(library_local&& l) noexcept
     , files_loaded_(l.files_loaded_)
     , optional_(l.optional_)
     , extensions_from_deprecated_source(l.extensions_from_deprecated_source)
+    , load_diags_(std::move(l.load_diags_))
 {}
 
 void library_local::collect_diags() const
 {
     // does not have any diagnosable children
+    std::lock_guard guard(mutex_);
+    diags() = load_diags_;
 }
 
 void library_local::refresh()
 {
-    files_.clear();
+    std::lock_guard guard(mutex_);
     load_files();
 }
 
@@ -90,6 +93,7 @@ const std::string& library_local::get_lib_path() const { return lib_path_; }
 
 std::shared_ptr<processor> library_local::find_file(const std::string& file_name)
 {
+    std::lock_guard guard(mutex_);
     if (!files_loaded_)
         load_files();
 
@@ -103,7 +107,7 @@ void library_local::load_files()
 {
     auto [files_list, rc] = file_manager_.list_directory_files(lib_path_);
     files_.clear();
-    diags().clear();
+    load_diags_.clear();
 
     switch (rc)
     {
@@ -111,13 +115,13 @@ void library_local::load_files()
             break;
         case hlasm_plugin::utils::path::list_directory_rc::not_exists:
             if (!optional_)
-                add_diagnostic(diagnostic_s::error_L0002(lib_path_));
+                load_diags_.push_back(diagnostic_s::error_L0002(lib_path_));
             break;
         case hlasm_plugin::utils::path::list_directory_rc::not_a_directory:
-            add_diagnostic(diagnostic_s::error_L0002(lib_path_));
+            load_diags_.push_back(diagnostic_s::error_L0002(lib_path_));
             break;
         case hlasm_plugin::utils::path::list_directory_rc::other_failure:
-            add_diagnostic(diagnostic_s::error_L0001(lib_path_));
+            load_diags_.push_back(diagnostic_s::error_L0001(lib_path_));
             break;
     }
 
@@ -144,7 +148,7 @@ void library_local::load_files()
             const auto [_, inserted] = files_.try_emplace(context::to_upper_copy(std::string(filename)), file.second);
             // TODO: the stored value is a full path, yet we try to interpret it as a relative one later on
             if (!inserted)
-                add_diagnostic(diagnostic_s::warning_L0004(lib_path_, context::to_upper_copy(std::string(filename))));
+                load_diags_.push_back(diagnostic_s::warning_L0004(lib_path_, context::to_upper_copy(std::string(filename))));
 
             if (extension.size())
                 extension_removed = true;
@@ -152,7 +156,7 @@ void library_local::load_files()
         }
     }
     if (extension_removed && extensions_from_deprecated_source)
-        add_diagnostic(diagnostic_s::warning_L0003(lib_path_));
+        load_diags_.push_back(diagnostic_s::warning_L0003(lib_path_));
 
     files_loaded_ = true;
 }
diff --git a/parser_library/src/workspaces/library_local.h b/parser_library/src/workspaces/library_local.h
index 0aab11e..41def0f 100644
--- a/parser_library/src/workspaces/library_local.h
+++ b/parser_library/src/workspaces/library_local.h
@@ -15,6 +15,7 @@
 #ifndef HLASMPLUGIN_PARSERLIBRARY_LOCAL_LIBRARY_H
 #define HLASMPLUGIN_PARSERLIBRARY_LOCAL_LIBRARY_H
 
+#include <mutex>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -69,6 +70,11 @@ private:
     bool optional_ = false;
     bool extensions_from_deprecated_source = false;
 
+    // the library is used by the language server and the macro tracers at the same time
+    mutable std::mutex mutex_;
+    // diagnostics that resulted from the last loading of the files
+    std::vector<diagnostic_s> load_diags_;
+
     void load_files();
 };
 #pragma warning(pop)
diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index 535ed45..1dbd3fb 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -89,8 +89,10 @@ parse_result processor_file_impl::parse_macro(
 parse_result processor_file_impl::parse_no_lsp_update(
     parse_lib_provider& lib_provider, analyzing_context ctx, const library_data data)
 {
+    // the text has to outlive the analyzer
+    const auto text = get_text_copy();
     auto no_update_analyzer_ =
-        std::make_unique<analyzer>(get_text(), get_file_name(), std::move(ctx), lib_provider, data, get_lsp_editing());
+        std::make_unique<analyzer>(text, get_file_name(), std::move(ctx), lib_provider, data, get_lsp_editing());
     no_update_analyzer_->analyze();
     return true;
 }
diff --git a/parser_library/src/workspaces/processor_group.h b/parser_library/src/workspaces/processor_group.h
index 538b8d5..847a24f 100644
--- a/parser_library/src/workspaces/processor_group.h
+++ b/parser_library/src/workspaces/processor_group.h
@@ -42,13 +42,13 @@ public:
 
     const std::string& name() const { return name_; }
 
-    const std::vector<std::unique_ptr<library>>& libraries() const { return libs_; }
+    const std::vector<std::shared_ptr<library>>& libraries() const { return libs_; }
 
     const asm_option& asm_options() const { return asm_optns; }
 
 
 private:
-    std::vector<std::unique_ptr<library>> libs_;
+    std::vector<std::shared_ptr<library>> libs_;
     std::string name_;
     asm_option asm_optns;
 };
diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index eaf8745..943b260 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -146,6 +146,14 @@ const processor_group& workspace::get_proc_grp_by_program(const std::string& fil
     return implicit_proc_grp;
 }
 
+std::pair<std::vector<std::shared_ptr<library>>, asm_option> workspace::get_proc_grp_data(
+    const std::string& filename) const
+{
+    std::lock_guard guard(*config_mutex_);
+    const auto& group = get_proc_grp_by_program(filename);
+    return { group.libraries(), group.asm_options() };
+}
+
 const ws_uri& workspace::uri() { return uri_; }
 
 void workspace::parse_file(const std::string& file_uri)
@@ -331,6 +339,8 @@ const processor_group& workspace::get_proc_grp(const proc_grp_id& proc_grp) cons
 // open config files and parse them
 bool workspace::load_and_process_config()
 {
+    std::lock_guard guard(*config_mutex_);
+
     std::filesystem::path ws_path(uri_);
 
     config_diags_.clear();
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 667a27b..e5d35df 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <filesystem>
 #include <memory>
+#include <mutex>
 #include <regex>
 #include <string>
 #include <unordered_set>
@@ -86,6 +87,8 @@ public:
     void add_proc_grp(processor_group pg);
     const processor_group& get_proc_grp(const proc_grp_id& proc_grp) const;
     const processor_group& get_proc_grp_by_program(const std::string& program) const;
+    // Returns the libraries and options of the group, may be called along with the language server.
+    std::pair<std::vector<std::shared_ptr<library>>, asm_option> get_proc_grp_data(const std::string& program) const;
 
     void parse_file(const std::string& file_uri);
     void refresh_libraries();
@@ -132,6 +135,8 @@ private:
     std::map<std::string, program> exact_pgm_conf_;
     std::vector<std::pair<program, std::regex>> regex_pgm_conf_;
     processor_group implicit_proc_grp;
+    // guards replacing of the configuration against the macro tracers
+    std::unique_ptr<std::mutex> config_mutex_ = std::make_unique<std::mutex>();
 
     std::filesystem::path ws_path_;
     std::filesystem::path proc_grps_path_;
-- 
2.43.0


From 114e5d3b1f1b4189d45ebf67945949e9478b974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 20/31] fix: a running debugger outlived the session it reports
 to

---
 language_server/src/dap/dap_server.cpp  | 6 ++++++
 language_server/src/dap/dap_server.h    | 3 +++
 language_server/src/dap/dap_session.cpp | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/language_server/src/dap/dap_server.cpp b/language_server/src/dap/dap_server.cpp
index 3d64d51..1c3b146 100644
--- a/language_server/src/dap/dap_server.cpp
+++ b/language_server/src/dap/dap_server.cpp
@@ -89,6 +89,12 @@ void server::message_received(const json& message)
     }
 }
 
+void server::end_session()
+{
+    methods_.clear();
+    features_.clear();
+}
+
 void server::disconnected()
 {
     shutdown_request_received_ = true;
diff --git a/language_server/src/dap/dap_server.h b/language_server/src/dap/dap_server.h
index be01616..96b6d69 100644
--- a/language_server/src/dap/dap_server.h
+++ b/language_server/src/dap/dap_server.h
@@ -48,6 +48,9 @@ public:
 
     void message_received(const json& message) override;
 
+    // Ends the debugger, so it does not send messages anymore.
+    void end_session();
+
 private:
     // messages are sent by the worker and the debugger thread, they have to leave in the order of their numbers
     std::mutex send_mutex_;
diff --git a/language_server/src/dap/dap_session.cpp b/language_server/src/dap/dap_session.cpp
index 68752c1..06db042 100644
--- a/language_server/src/dap/dap_session.cpp
+++ b/language_server/src/dap/dap_session.cpp
@@ -31,6 +31,8 @@ void session::thread_routine()
         scope_exit end_request_manager([&req_mgr]() { req_mgr.end_worker(); });
         dap::server server(*ws_mngr);
         dispatcher dispatcher(json_channel_adapter(msg_unwrapper, msg_wrapper), server, req_mgr);
+        // the debugger sends its events through the server and the dispatcher
+        scope_exit end_session([&server]() { server.end_session(); });
         dispatcher.run_server_loop();
     }
     catch (const std::exception& ex)
-- 
2.43.0


From bcc08be4752bbb1ef914155973271ece332a4a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:34 +0000
Subject: [PATCH 21/31] fix: a macro tracer left the members it had read among
 the files of the workspace

---
 parser_library/src/debugging/debug_lib_provider.h |  4 ++--
 parser_library/src/workspaces/library.h           |  2 ++
 parser_library/src/workspaces/library_local.cpp   | 12 ++++++++++++
 parser_library/src/workspaces/library_local.h     |  1 +
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/debugging/debug_lib_provider.h b/parser_library/src/debugging/debug_lib_provider.h
index 193a9fe..061af9c 100644
--- a/parser_library/src/debugging/debug_lib_provider.h
+++ b/parser_library/src/debugging/debug_lib_provider.h
@@ -43,7 +43,7 @@ public:
     {
         for (auto&& lib : libraries_)
         {
-            std::shared_ptr<workspaces::processor> found = lib->find_file(library);
+            std::shared_ptr<workspaces::processor> found = lib->find_untracked_file(library);
             if (found)
                 return found->parse_no_lsp_update(*this, std::move(ctx), data);
         }
@@ -55,7 +55,7 @@ public:
     {
         for (auto&& lib : libraries_)
         {
-            std::shared_ptr<workspaces::processor> found = lib->find_file(library);
+            std::shared_ptr<workspaces::processor> found = lib->find_untracked_file(library);
             if (found)
                 return true;
         }
diff --git a/parser_library/src/workspaces/library.h b/parser_library/src/workspaces/library.h
index e2843a7..15f0d1d 100644
--- a/parser_library/src/workspaces/library.h
+++ b/parser_library/src/workspaces/library.h
@@ -28,6 +28,8 @@ class library : public virtual diagnosable
 {
 public:
     virtual std::shared_ptr<processor> find_file(const std::string& file) = 0;
+    // finds a file without adding it to the files the workspace keeps track of
+    virtual std::shared_ptr<processor> find_untracked_file(const std::string& file) { return find_file(file); }
     virtual void refresh() = 0;
     virtual ~library() = default;
 };
diff --git a/parser_library/src/workspaces/library_local.cpp b/parser_library/src/workspaces/library_local.cpp
index 893775c..91f4f41 100644
--- a/parser_library/src/workspaces/library_local.cpp
+++ b/parser_library/src/workspaces/library_local.cpp
@@ -103,6 +103,18 @@ std::shared_ptr<processor> library_local::find_file(const std::string& file_name
         return nullptr;
 }
 
+std::shared_ptr<processor> library_local::find_untracked_file(const std::string& file_name)
+{
+    std::lock_guard guard(mutex_);
+    if (!files_loaded_)
+        load_files();
+
+    if (auto found = files_.find(file_name); found != files_.end())
+        return file_manager_.get_processor_file(utils::path::join(lib_path_, found->second).string());
+    else
+        return nullptr;
+}
+
 void library_local::load_files()
 {
     auto [files_list, rc] = file_manager_.list_directory_files(lib_path_);
diff --git a/parser_library/src/workspaces/library_local.h b/parser_library/src/workspaces/library_local.h
index 41def0f..2653997 100644
--- a/parser_library/src/workspaces/library_local.h
+++ b/parser_library/src/workspaces/library_local.h
@@ -54,6 +54,7 @@ public:
     const std::string& get_lib_path() const;
 
     std::shared_ptr<processor> find_file(const std::string& file) override;
+    std::shared_ptr<processor> find_untracked_file(const std::string& file) override;
 
     void refresh() override;
 
-- 
2.43.0


From b580d2457b5df1ec93926f3cac1fc51c5779a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:13 +0000
Subject: [PATCH 22/31] fix: closing a document whose folder had been removed
 left its dependencies open

---
 parser_library/src/workspaces/workspace.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 943b260..c922656 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -253,15 +253,13 @@ void workspace::did_close_file(const std::string& file_uri)
         return;
     }
 
-    // find if the file is a dependant
-    auto fname = dependants_.find(file_uri);
-    if (fname != dependants_.end())
+    // find if the file has dependencies (it may have been analyzed while it belonged to another workspace)
+    if (auto file = std::dynamic_pointer_cast<processor_file>(file_manager_.find(file_uri)))
     {
-        auto file = file_manager_.find_processor_file(*fname);
         // filter the dependencies that should not be closed
         filter_and_close_dependencies_(file->dependencies(), file);
         // remove it from dependants
-        dependants_.erase(fname);
+        dependants_.erase(file_uri);
     }
 
     // close the file itself
-- 
2.43.0


From a14b71cf4b91bf8c7902aad5585405965c4e323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:53 +0000
Subject: [PATCH 23/31] fix: a malformed change of workspace folders was
 processed partially

---
 language_server/src/lsp/feature_workspace_folders.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/language_server/src/lsp/feature_workspace_folders.cpp b/language_server/src/lsp/feature_workspace_folders.cpp
index ca6a639..c58fd0a 100644
--- a/language_server/src/lsp/feature_workspace_folders.cpp
+++ b/language_server/src/lsp/feature_workspace_folders.cpp
@@ -95,6 +95,15 @@ void feature_workspace_folders::on_did_change_workspace_folders(const json&, con
     const auto& added = params.at("event").at("added");
     const auto& removed = params.at("event").at("removed");
 
+    // a malformed notification is refused as a whole, it must not be processed partially
+    for (const auto& ws : removed)
+        (void)uri_to_path(ws.at("uri").get<std::string>());
+    for (const auto& ws : added)
+    {
+        (void)ws.at("name").get<std::string>();
+        (void)uri_to_path(ws.at("uri").get<std::string>());
+    }
+
     remove_workspaces(removed);
     add_workspaces(added);
 }
-- 
2.43.0


From aa7fca4496552fd27654fc939c13bd8b9e75187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:35 +0000
Subject: [PATCH 24/31] fix: columns beyond the end of a line refer to the end
 of that line

The protocol allows a column larger than the length of the line and defines it
as the end of the line. The position ran into the following lines instead, so
that the edited text differed from the one in the editor.
---
 parser_library/src/workspaces/file_impl.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index c3c525c..dc94d31 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -218,7 +218,14 @@ size_t file_impl::index_from_position(const std::string& text, const std::vector
     size_t i = line_indices[loc.line];
     size_t utf16_counter = 0;
 
-    while (utf16_counter < end && i < text.size())
+    // columns beyond the end of the line refer to the end of the line
+    size_t line_end = loc.line + 1 < line_indices.size() ? line_indices[loc.line + 1] : text.size();
+    if (line_end > i && text[line_end - 1] == '\n')
+        --line_end;
+    if (line_end > i && text[line_end - 1] == '\r')
+        --line_end;
+
+    while (utf16_counter < end && i < line_end)
     {
         if (!utf8_one_byte_begin(text[i]))
         {
-- 
2.43.0


From be3ad4ed28b25e1972cb7e9f6edae6cf10cbff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 25/31] fix: requests that follow a command to resume must not
 read the data of the stop the tracer is leaving

---
 parser_library/src/debugging/debugger.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 3708de4..d8fe300 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -83,6 +83,9 @@ class debugger::impl final : public processing::statement_analyzer
     std::condition_variable con_var;
     std::atomic<bool> continue_ = false;
 
+    // True while the analyzer is stopped, i.e. until it holds variable_mtx_ again
+    bool stopped_ = false;
+
     bool debug_ended_ = false;
 
     // Specifies whether the debugger stops on the next statement call.
@@ -114,6 +117,14 @@ class debugger::impl final : public processing::statement_analyzer
 
     std::unordered_map<std::string, std::vector<breakpoint>> breakpoints_;
 
+    // The data handed out while stopped (stack frames, scopes, variables) are invalidated by the running analyzer,
+    // so a request that follows the command to resume must not get in before the analyzer has taken variable_mtx_.
+    void wait_until_resumed()
+    {
+        std::unique_lock<std::mutex> lck(control_mtx);
+        con_var.wait(lck, [this] { return !stopped_ || !continue_; });
+    }
+
     size_t add_variable(std::vector<variable_ptr> vars)
     {
         variables_[next_var_ref_].variables = std::move(vars);
@@ -207,12 +218,16 @@ public:
             next_stmt_range_ = stmt_range;
 
             continue_ = false;
+            stopped_ = true;
             if (event_)
                 event_->stopped("entry", "");
 
             con_var.wait(lck, [&] { return !!continue_; });
 
             variable_mtx_.lock();
+
+            stopped_ = false;
+            con_var.notify_all();
         }
     }
 
@@ -225,6 +240,7 @@ public:
             continue_ = true;
         }
         con_var.notify_all();
+        wait_until_resumed();
     }
 
     void step_in()
@@ -235,6 +251,7 @@ public:
             continue_ = true;
         }
         con_var.notify_all();
+        wait_until_resumed();
     }
 
     void disconnect()
@@ -262,6 +279,7 @@ public:
             continue_ = true;
         }
         con_var.notify_all();
+        wait_until_resumed();
     }
 
     // Retrieval of current context.
-- 
2.43.0


From 2e8976f54c342c44a74e980e0e644ec1d214ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 26/31] fix: refuse messages that are nested so deeply that
 processing them exhausts the stack

---
 language_server/src/base_protocol_channel.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/language_server/src/base_protocol_channel.cpp b/language_server/src/base_protocol_channel.cpp
index c6de0af..f444b04 100644
--- a/language_server/src/base_protocol_channel.cpp
+++ b/language_server/src/base_protocol_channel.cpp
@@ -31,6 +31,7 @@ base_protocol_channel::base_protocol_channel(std::istream& in, std::ostream& out
 
 constexpr const std::string_view content_length_string = "Content-Length: ";
 constexpr const size_t message_size_limit = 1 << 30;
+constexpr const int message_depth_limit = 1000;
 constexpr const std::string_view lsp_header_end = "\r\n\r\n";
 
 void base_protocol_channel::write_message(const std::string& in)
@@ -170,7 +171,16 @@ std::optional<nlohmann::json> base_protocol_channel::read()
 
             try
             {
-                return nlohmann::json::parse(message_buffer);
+                // values are processed recursively, excessive nesting would exhaust the stack
+                bool too_deep = false;
+                auto message = nlohmann::json::parse(
+                    message_buffer, [&too_deep](int depth, nlohmann::json::parse_event_t, nlohmann::json&) {
+                        too_deep |= depth > message_depth_limit;
+                        return !too_deep;
+                    });
+                if (!too_deep)
+                    return message;
+                LOG_WARNING("Refusing a message that is nested too deeply.");
             }
             catch (const nlohmann::json::exception&)
             {
-- 
2.43.0


From f0fa7f67fbf98f3e7e78347623d478fc662eda70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 27/31] fix: completion in a macro after the analysis of the
 program that uses it was cancelled dereferenced a null pointer

---
 parser_library/src/lsp/lsp_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/lsp/lsp_context.cpp b/parser_library/src/lsp/lsp_context.cpp
index 01c2c57..fb93fa4 100644
--- a/parser_library/src/lsp/lsp_context.cpp
+++ b/parser_library/src/lsp/lsp_context.cpp
@@ -187,7 +187,7 @@ completion_list_s lsp_context::completion(const std::string& document_uri,
     completion_trigger_kind trigger_kind) const
 {
     auto file_it = files_.find(document_uri);
-    if (file_it == files_.end())
+    if (file_it == files_.end() || !opencode_) // no open code when the analysis was cancelled
         return completion_list_s();
     const text_data_ref_t& text = file_it->second->data;
 
-- 
2.43.0


From 65f9a7c6a9dd3de2ecb91a60000ad52436028956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:45 +0000
Subject: [PATCH 28/31] fix: the results of an analysis referred to texts of
 files that may have been dropped since

---
 parser_library/src/lsp/text_data_ref_t.cpp | 10 +++++++---
 parser_library/src/lsp/text_data_ref_t.h   |  8 +++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/lsp/text_data_ref_t.cpp b/parser_library/src/lsp/text_data_ref_t.cpp
index 4625d03..3c94552 100644
--- a/parser_library/src/lsp/text_data_ref_t.cpp
+++ b/parser_library/src/lsp/text_data_ref_t.cpp
@@ -18,8 +18,12 @@
 
 namespace hlasm_plugin::parser_library::lsp {
 
+text_data_ref_t::text_data_ref_t()
+    : text(empty_text)
+{}
+
 text_data_ref_t::text_data_ref_t(const std::string& text)
-    : text(&text)
+    : text(std::make_shared<const std::string>(text))
     , line_indices(workspaces::file_impl::create_line_indices(text))
 {}
 
@@ -56,12 +60,12 @@ std::string_view text_data_ref_t::get_range_content(range r) const
     size_t start_i = workspaces::file_impl::index_from_position(*text, line_indices, r.start);
     size_t end_i = workspaces::file_impl::index_from_position(*text, line_indices, r.end);
     if (start_i >= text->size())
-        return empty_text;
+        return *empty_text;
     return std::string_view(&text->at(start_i), end_i - start_i);
 }
 
 size_t text_data_ref_t::get_number_of_lines() const { return line_indices.size(); }
 
-std::string text_data_ref_t::empty_text;
+const std::shared_ptr<const std::string> text_data_ref_t::empty_text = std::make_shared<const std::string>();
 
 } // namespace hlasm_plugin::parser_library::lsp
diff --git a/parser_library/src/lsp/text_data_ref_t.h b/parser_library/src/lsp/text_data_ref_t.h
index d891490..6e334ef 100644
--- a/parser_library/src/lsp/text_data_ref_t.h
+++ b/parser_library/src/lsp/text_data_ref_t.h
@@ -15,6 +15,7 @@
 #ifndef LSP_TEXT_DATA_REF_T_H
 #define LSP_TEXT_DATA_REF_T_H
 
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -24,13 +25,14 @@ namespace hlasm_plugin::parser_library::lsp {
 
 class text_data_ref_t
 {
-    const std::string* text = &empty_text;
+    // the file the text comes from may be changed or dropped while the results of its analysis are still in use
+    std::shared_ptr<const std::string> text;
     std::vector<size_t> line_indices;
 
-    static std::string empty_text;
+    static const std::shared_ptr<const std::string> empty_text;
 
 public:
-    text_data_ref_t() = default;
+    text_data_ref_t();
     explicit text_data_ref_t(const std::string& text);
 
     // Returns a specified line from the text, zero-based indexed.
-- 
2.43.0


From 4d8ddcb9bda663c7664d0bd92f84e0332028f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 29/31] fix: libraries outside of the workspace folder, or
 shared by several folders, were not followed

A member that does not lie in the folder of the program that uses it was analyzed on its own when opened, changed or
reported as changed, the program and its libraries were not updated, and closing a program dropped the members that
programs of other folders still used.
---
 parser_library/src/workspace_manager_impl.h   | 45 ++++++++++++++-----
 parser_library/src/workspaces/file_manager.h  |  3 ++
 .../src/workspaces/file_manager_impl.cpp      |  9 ++++
 .../src/workspaces/file_manager_impl.h        |  2 +
 parser_library/src/workspaces/workspace.cpp   | 22 +++------
 parser_library/src/workspaces/workspace.h     |  4 +-
 6 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/parser_library/src/workspace_manager_impl.h b/parser_library/src/workspace_manager_impl.h
index fba0749..0204623 100644
--- a/parser_library/src/workspace_manager_impl.h
+++ b/parser_library/src/workspace_manager_impl.h
@@ -15,6 +15,9 @@
 #ifndef HLASMPLUGIN_PARSERLIBRARY_WORKSPACE_MANAGER_IMPL_H
 #define HLASMPLUGIN_PARSERLIBRARY_WORKSPACE_MANAGER_IMPL_H
 
+#include <algorithm>
+#include <vector>
+
 #include "debugging/debug_lib_provider.h"
 #include "workspace_manager.h"
 #include "workspaces/file_manager_impl.h"
@@ -76,8 +79,8 @@ public:
         if (cancel_ && *cancel_)
             return;
 
-        workspaces::workspace& ws = ws_path_match(document_uri);
-        ws.did_open_file(document_uri);
+        for (auto ws : affected_workspaces(document_uri))
+            ws->did_open_file(document_uri);
         if (cancel_ && *cancel_)
             return;
 
@@ -92,8 +95,8 @@ public:
         if (cancel_ && *cancel_)
             return;
 
-        workspaces::workspace& ws = ws_path_match(document_uri);
-        ws.did_change_file(document_uri, changes, ch_size);
+        for (auto ws : affected_workspaces(document_uri))
+            ws->did_change_file(document_uri, changes, ch_size);
         if (cancel_ && *cancel_)
             return;
 
@@ -109,10 +112,14 @@ public:
 
     void did_change_watched_files(std::vector<std::string> paths)
     {
+        // the libraries may lie outside of the workspaces
+        for (auto& ws : workspaces_)
+            ws.second.refresh_libraries();
+
         for (const auto& path : paths)
         {
-            workspaces::workspace& ws = ws_path_match(path);
-            ws.did_change_watched_files(path);
+            for (auto ws : affected_workspaces(path))
+                ws->did_change_watched_files(path);
         }
         notify_diagnostics_consumers();
     }
@@ -140,7 +147,7 @@ public:
             definition_result = { pos, document_uri };
             return position_uri(definition_result);
         }
-        definition_result = ws_path_match(document_uri).definition(document_uri, pos);
+        definition_result = affected_workspaces(document_uri).back()->definition(document_uri, pos);
 
         return position_uri(definition_result);
     }
@@ -151,7 +158,7 @@ public:
         if (cancel_ && *cancel_)
             return {};
 
-        references_result = ws_path_match(document_uri).references(document_uri, pos);
+        references_result = affected_workspaces(document_uri).back()->references(document_uri, pos);
 
         return { references_result.data(), references_result.size() };
     }
@@ -162,7 +169,7 @@ public:
         if (cancel_ && *cancel_)
             return "";
 
-        hover_result = ws_path_match(document_uri).hover(document_uri, pos);
+        hover_result = affected_workspaces(document_uri).back()->hover(document_uri, pos);
 
         return hover_result;
     }
@@ -177,7 +184,8 @@ public:
         if (cancel_ && *cancel_)
             return completion_list { nullptr, 0 };
 
-        completion_result = ws_path_match(document_uri).completion(document_uri, pos, trigger_char, trigger_kind);
+        completion_result =
+            affected_workspaces(document_uri).back()->completion(document_uri, pos, trigger_char, trigger_kind);
 
         return completion_list(completion_result.data(), completion_result.size());
     }
@@ -230,6 +238,23 @@ private:
             return *max_ws;
     }
 
+    // returns the workspaces that contain programs that use the file,
+    // or the workspace the file belongs to, if it is not used by any program
+    std::vector<workspaces::workspace*> affected_workspaces(const std::string& document_uri)
+    {
+        std::vector<workspaces::workspace*> result;
+        for (auto& ws : workspaces_)
+        {
+            if (ws.second.is_dependency(document_uri))
+                result.push_back(&ws.second);
+        }
+        if (result.empty())
+            return { &ws_path_match(document_uri) };
+
+        std::sort(result.begin(), result.end(), [](auto l, auto r) { return l->uri() < r->uri(); });
+        return result;
+    }
+
     void notify_diagnostics_consumers() const
     {
         diags().clear();
diff --git a/parser_library/src/workspaces/file_manager.h b/parser_library/src/workspaces/file_manager.h
index a5896af..2b9e190 100644
--- a/parser_library/src/workspaces/file_manager.h
+++ b/parser_library/src/workspaces/file_manager.h
@@ -56,6 +56,9 @@ public:
     // Returns nullptr if there is no such file.
     virtual processor_file_ptr find_processor_file(const std::string& key) = 0;
 
+    // Tells whether there is a file, other than the specified one, that depends on the file with specified file name.
+    virtual bool is_dependency(const file_uri& uri, const file_uri& except) = 0;
+
     // Returns list of all files in a directory. Returns associative array with pairs file path - file name.
     virtual list_directory_result list_directory_files(const std::string& path) = 0;
 
diff --git a/parser_library/src/workspaces/file_manager_impl.cpp b/parser_library/src/workspaces/file_manager_impl.cpp
index d82905c..bd172d5 100644
--- a/parser_library/src/workspaces/file_manager_impl.cpp
+++ b/parser_library/src/workspaces/file_manager_impl.cpp
@@ -14,6 +14,7 @@
 
 #include "file_manager_impl.h"
 
+#include <algorithm>
 #include <map>
 
 #include "processor_file_impl.h"
@@ -108,6 +109,14 @@ processor_file_ptr file_manager_impl::find_processor_file(const std::string& key
     return change_into_processor_file_if_not_already_(ret->second);
 }
 
+bool file_manager_impl::is_dependency(const file_uri& uri, const file_uri& except)
+{
+    std::lock_guard guard(files_mutex);
+    return std::any_of(files_.begin(), files_.end(), [&uri, &except](const auto& item) {
+        auto p = dynamic_cast<processor_file*>(item.second.get());
+        return p && item.first != except && p->dependencies().count(uri);
+    });
+}
 
 std::vector<processor_file*> file_manager_impl::list_updated_files()
 {
diff --git a/parser_library/src/workspaces/file_manager_impl.h b/parser_library/src/workspaces/file_manager_impl.h
index a321fe9..31715bc 100644
--- a/parser_library/src/workspaces/file_manager_impl.h
+++ b/parser_library/src/workspaces/file_manager_impl.h
@@ -48,6 +48,8 @@ public:
     file_ptr find(const std::string& key) override;
     processor_file_ptr find_processor_file(const std::string& key) override;
 
+    bool is_dependency(const file_uri& uri, const file_uri& except) override;
+
     // Returns array of files that were updated since this method was last called
     virtual std::vector<processor_file*> list_updated_files();
     list_directory_result list_directory_files(const std::string& path) override;
diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index c922656..be70f36 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -247,7 +247,7 @@ void workspace::did_close_file(const std::string& file_uri)
     diag_suppress_notified_[file_uri] = false;
     // first check whether the file is a dependency
     // if so, simply close it, no other action is needed
-    if (is_dependency_(file_uri))
+    if (file_manager_.is_dependency(file_uri, file_uri))
     {
         file_manager_.did_close_file(file_uri);
         return;
@@ -483,27 +483,15 @@ bool workspace::is_wildcard(const std::string& str)
 void workspace::filter_and_close_dependencies_(const std::set<std::string>& dependencies, processor_file_ptr file)
 {
     std::set<std::string> filtered;
-    // filters out externally open files
+    // filters out externally open files and the files that are dependencies of other files (of any workspace)
     for (auto& dependency : dependencies)
     {
         auto dependency_file = file_manager_.find_processor_file(dependency);
-        if (dependency_file && !dependency_file->get_lsp_editing())
+        if (dependency_file && !dependency_file->get_lsp_editing()
+            && !file_manager_.is_dependency(dependency, file->get_file_name()))
             filtered.insert(dependency);
     }
 
-    // filters the files that are dependencies of other dependants and externally open files
-    for (auto dependant : dependants_)
-    {
-        auto fdependant = file_manager_.find_processor_file(dependant);
-        if (!fdependant)
-            continue;
-        for (auto& dependency : fdependant->dependencies())
-        {
-            if (fdependant->get_file_name() != file->get_file_name() && filtered.find(dependency) != filtered.end())
-                filtered.erase(dependency);
-        }
-    }
-
     // close all exclusive dependencies of file
     for (auto& dep : filtered)
     {
@@ -512,7 +500,7 @@ void workspace::filter_and_close_dependencies_(const std::set<std::string>& depe
     }
 }
 
-bool workspace::is_dependency_(const std::string& file_uri)
+bool workspace::is_dependency(const std::string& file_uri)
 {
     for (auto dependant : dependants_)
     {
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index e5d35df..ea813bc 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -90,6 +90,9 @@ public:
     // Returns the libraries and options of the group, may be called along with the language server.
     std::pair<std::vector<std::shared_ptr<library>>, asm_option> get_proc_grp_data(const std::string& program) const;
 
+    // Tells whether the file is used by a program analyzed in this workspace.
+    bool is_dependency(const std::string& file_uri);
+
     void parse_file(const std::string& file_uri);
     void refresh_libraries();
     void did_open_file(const std::string& file_uri);
@@ -158,7 +161,6 @@ private:
     diagnostic_container config_diags_;
 
     void filter_and_close_dependencies_(const std::set<std::string>& dependencies, processor_file_ptr file);
-    bool is_dependency_(const std::string& file_uri);
 
     bool program_id_match(const std::string& filename, const program_id& program) const;
 
-- 
2.43.0


From e5fef361a670e5c124f921a2578fbe95fceb7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 30/31] fix: a workspace folder removed during the launch of a
 debug session left the debugger with a dangling workspace

---
 language_server/src/dap/dap_feature.cpp     |  3 +++
 parser_library/include/workspace_manager.h  |  3 +++
 parser_library/src/workspace_manager.cpp    |  2 ++
 parser_library/src/workspace_manager_impl.h | 19 +++++++++++++++----
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index 0a06d01..53a4563 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -132,9 +132,12 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
     // wait for configurationDone?
     std::string program_path = convert_path(args.at("program").get<std::string>(), path_format_);
     bool stop_on_entry = args.at("stopOnEntry").get<bool>();
+    // the workspace must not be removed before the debugger has taken what it needs
+    auto guard = ws_mngr_.lock_workspaces();
     auto workspace_id = ws_mngr_.find_workspace(program_path.c_str());
     debugger->set_event_consumer(this);
     debugger->launch(program_path.c_str(), *workspace_id, stop_on_entry);
+    guard.unlock();
 
     response_->respond(request_seq, "launch", json());
 }
diff --git a/parser_library/include/workspace_manager.h b/parser_library/include/workspace_manager.h
index f854601..bc1ed9f 100644
--- a/parser_library/include/workspace_manager.h
+++ b/parser_library/include/workspace_manager.h
@@ -21,6 +21,7 @@
 
 #include <atomic>
 #include <fstream>
+#include <mutex>
 #include <set>
 #include <string>
 #include <unordered_map>
@@ -86,6 +87,8 @@ public:
 
     virtual void add_workspace(const char* name, const char* uri);
     virtual ws_id find_workspace(const char* document_uri);
+    // no workspace is added or removed while the lock is held, required when a workspace is used by another thread
+    [[nodiscard]] std::unique_lock<std::mutex> lock_workspaces();
     virtual void remove_workspace(const char* uri);
 
     virtual void did_open_file(const char* document_uri, version_t version, const char* text, size_t text_size);
diff --git a/parser_library/src/workspace_manager.cpp b/parser_library/src/workspace_manager.cpp
index 9dd4a88..c3d2539 100644
--- a/parser_library/src/workspace_manager.cpp
+++ b/parser_library/src/workspace_manager.cpp
@@ -55,6 +55,8 @@ void workspace_manager::add_workspace(const char* name, const char* uri) { impl_
 
 ws_id workspace_manager::find_workspace(const char* document_uri) { return impl_->find_workspace(document_uri); }
 
+std::unique_lock<std::mutex> workspace_manager::lock_workspaces() { return impl_->lock_workspaces(); }
+
 void workspace_manager::remove_workspace(const char* uri) { impl_->remove_workspace(uri); }
 
 void workspace_manager::did_change_watched_files(const char** paths, size_t size)
diff --git a/parser_library/src/workspace_manager_impl.h b/parser_library/src/workspace_manager_impl.h
index 0204623..7b0909b 100644
--- a/parser_library/src/workspace_manager_impl.h
+++ b/parser_library/src/workspace_manager_impl.h
@@ -16,6 +16,7 @@
 #define HLASMPLUGIN_PARSERLIBRARY_WORKSPACE_MANAGER_IMPL_H
 
 #include <algorithm>
+#include <mutex>
 #include <vector>
 
 #include "debugging/debug_lib_provider.h"
@@ -57,19 +58,27 @@ public:
 
     void add_workspace(std::string name, std::string uri)
     {
-        auto ws = workspaces_.emplace(uri, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
-        ws.first->second.set_message_consumer(message_consumer_);
-        ws.first->second.open();
+        {
+            auto guard = lock_workspaces();
+            auto ws =
+                workspaces_.emplace(uri, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
+            ws.first->second.set_message_consumer(message_consumer_);
+            ws.first->second.open();
+        }
 
         notify_diagnostics_consumers();
     }
     ws_id find_workspace(const std::string& document_uri) { return &ws_path_match(document_uri); }
+    std::unique_lock<std::mutex> lock_workspaces() { return std::unique_lock(workspaces_mutex_); }
     void remove_workspace(std::string uri)
     {
         auto it = workspaces_.find(uri);
         if (it == workspaces_.end())
             return; // erase does no action, if the key does not exist
-        workspaces_.erase(uri);
+        {
+            auto guard = lock_workspaces();
+            workspaces_.erase(uri);
+        }
         notify_diagnostics_consumers();
     }
 
@@ -295,6 +304,8 @@ private:
     }
     std::vector<debugging::variable*> temp_variables_;
 
+    // held when workspaces are added or removed
+    std::mutex workspaces_mutex_;
     // key is the path of the workspace folder
     std::unordered_map<std::string, workspaces::workspace> workspaces_;
     workspaces::file_manager_impl file_manager_;
-- 
2.43.0


From 949f70e7086879b5830bc73e262557578e21fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:20 +0000
Subject: [PATCH 31/31] fix: a change of a document that is not open altered
 the content of a library member

---
 parser_library/src/workspaces/file_manager_impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/file_manager_impl.cpp b/parser_library/src/workspaces/file_manager_impl.cpp
index bd172d5..98d8f1b 100644
--- a/parser_library/src/workspaces/file_manager_impl.cpp
+++ b/parser_library/src/workspaces/file_manager_impl.cpp
@@ -172,8 +172,8 @@ void file_manager_impl::did_change_file(
     std::lock_guard guard(files_mutex);
 
     auto file = files_.find(document_uri);
-    if (file == files_.end())
-        return; // if the file does not exist, no action is taken
+    if (file == files_.end() || !file->second->get_lsp_editing())
+        return; // if the file does not exist or is not open in the editor, no action is taken
 
     prepare_file_for_change_(file->second);
 
-- 
2.43.0

