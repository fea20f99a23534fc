#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
LS='language_server/src/'; PL='parser_library/src/'
p('C01','Diagnostics converge to the current sources, whatever the history',
 'Once the client has stopped sending and the server has gone idle, the diagnostics shown for every document are exactly the ones a freshly started server shows for the same open documents, files and configuration. Edits that were superseded or cancelled half-way, closed documents and files that used to be included leave nothing behind.',
 ['histories','schedules','programs'],
 'every sequence of open/change/close notifications over several programs, macros and copy members, and every interleaving of the reader, dispatcher and worker threads (including cancellation of an analysis at any point)',
 'Unit tests drive one analysis at a time in one thread; the request queue tests use a mock server. No test cancels an analysis part-way, or compares the end state of a long history with a fresh start.',
 [LS+'request_manager.cpp',LS+'lsp/lsp_server.cpp',PL+'workspace_manager_impl.h',PL+'workspaces/workspace.cpp',PL+'workspaces/file_manager_impl.cpp',PL+'workspaces/processor_file_impl.cpp'],
 [('superseded requests are run with the cancel flag set so that only texts are updated',LS+'request_manager.cpp'),('files no longer included are closed after re-analysis',PL+'workspaces/workspace.cpp'),('empty list published for files whose diagnostics vanished',LS+'lsp/lsp_server.cpp')],
 [('cancel flag','an analysis in progress is obsolete',LS+'main.cpp'),('dependants and dependencies','which programs include which files',PL+'workspaces/workspace.h')],
 ['textDocument/publishDiagnostics notifications at idle'])
p('C02','Incremental edits reproduce the editor text exactly',
 'After any sequence of edits, the text the server analyses for an open document is character for character the text in the editor: edit positions count UTF-16 units, lines end at LF, CR or CRLF, and all changes of all notifications are applied in the order sent. This holds no matter how the notifications are queued, coalesced or overtaken by newer ones.',
 ['histories','schedules','inputs'],
 'all sequences of whole-text and range edits (several per notification, multi-line, non-BMP characters, mixed line ends, end-of-document positions) and all schedules that supersede or cancel the processing of some of them',
 'Unit tests apply a handful of fixed edits to a file object directly; none goes through the queue where superseded notifications are processed in a different mode.',
 [PL+'workspaces/file_impl.cpp',PL+'workspaces/file_manager_impl.cpp',LS+'lsp/feature_text_synchronization.cpp',LS+'request_manager.cpp'],
 [('line index maintained incrementally',PL+'workspaces/file_impl.cpp'),('text is updated even for superseded requests',PL+'workspace_manager_impl.h')],
 [('text and line starts','current content',PL+'workspaces/file_impl.h')],
 ['message texts and line numbers in published diagnostics','semantic tokens'])
p('C03','Every request is answered exactly once with the right answer',
 'Every well-formed request gets exactly one response carrying its own id, and nothing else is ever sent as a response. If no newer text for that document, or for one analysed together with it, was sent while the request was outstanding, the response equals the one a freshly started server gives for the same documents, whatever else was queued or cancelled around it.',
 ['schedules','histories'],
 'all interleavings of hover, definition, references, completion and semantic-token requests with edits of the same and of other documents',
 'Tests call feature handlers synchronously with a mock response channel; none overlaps requests with edits or counts responses per id.',
 [LS+'request_manager.cpp',LS+'dispatcher.cpp',LS+'lsp/lsp_server.cpp',LS+'lsp/feature_language_features.cpp',LS+'json_queue_channel.cpp',LS+'blocking_queue.h',PL+'workspace_manager_impl.h'],
 [('ordered queue drained by one worker',LS+'request_manager.cpp'),('hand-over queue between reader and dispatcher',LS+'blocking_queue.h')],
 [('request queue','accepted but unprocessed messages',LS+'request_manager.h')],
 ['response messages on the output stream'])
p('C04','Messages survive arbitrary stream chunking and concurrent writers',
 'However the input bytes are split, delayed or preceded by extra headers, the server sees exactly the sequence of messages the client framed. Whatever threads send at the same time, the output is a concatenation of whole frames whose declared length is the exact byte length of one valid JSON message.',
 ['schedules','inputs','fault_sequences'],
 'all chunkings and delays of the input stream, all interleavings of the LSP worker, debug sessions and tracer threads writing, slow readers and closed pipes',
 'Tests feed complete strings from a single thread.',
 [LS+'base_protocol_channel.cpp',LS+'native_server_streams.cpp',LS+'dispatcher.cpp',LS+'dap/dap_message_wrappers.cpp'],
 [('write lock around a whole frame',LS+'base_protocol_channel.cpp'),('content is read until the declared length',LS+'base_protocol_channel.cpp')],
 [], ['raw bytes on the output stream','effects of each input message'])
p('C05','No client message can kill or wedge the server',
 'No frame, be its payload malformed, incomplete, of the wrong types, nested too deeply, unknown, out of order or just unusual, makes the server crash, stop answering or forget its state. Well-formed messages sent before and after it are handled exactly as if it had not been sent.',
 ['inputs','histories','schedules'],
 'every mutation of protocol messages (missing or retyped members, unknown methods, unexpected responses, invalid JSON, unknown documents, out-of-range positions, deeply nested values, unknown debug sessions) inserted at any point of any session',
 'Tests cover a few hand-written malformed messages against single handlers, not their effect on the threads that carry later messages.',
 [LS+'request_manager.cpp',LS+'server.cpp',LS+'lsp/lsp_server.cpp',LS+'lsp/feature_workspace_folders.cpp',LS+'lsp/feature_text_synchronization.cpp',LS+'dap/dap_server.cpp',LS+'dap/dap_session_manager.cpp',LS+'main.cpp'],
 [('exceptions contained per message',LS+'server.cpp'),('JSON errors contained per frame',LS+'base_protocol_channel.cpp')],
 [], ['process liveness','responses and diagnostics of the surrounding session'])
p('C06','The server always terminates cleanly when told to, or when the client vanishes',
 'When the client shuts the server down, or its stream ends or breaks at any instant, the process ends within a bounded time with every thread finished, without crashing, hanging or touching freed memory. Its exit status is success if and only if a shutdown request and then an exit notification had been received.',
 ['crash_points','schedules','fault_sequences'],
 'every instant of end-of-input, output failure, shutdown and exit relative to queued and running analyses and debug sessions',
 'No test runs the real program; thread joins are only tested with idle mocks.',
 [LS+'main.cpp',LS+'dispatcher.cpp',LS+'request_manager.cpp',LS+'blocking_queue.h',LS+'dap/dap_session.cpp',LS+'dap/dap_session_manager.cpp',PL+'debugging/debugger.cpp'],
 [('queues are terminated and threads joined',LS+'main.cpp'),('remaining requests finished before the server object goes away',LS+'request_manager.cpp')],
 [('currently running server','whether the worker still uses a server object',LS+'request_manager.h')],
 ['process exit status','absence of deadlock and invalid memory access in the simulation'])
p('C07','Debug sessions are isolated and follow the protocol',
 'Until it is disconnected or closed, every well-formed request of a debug session is answered exactly once, in that session, with its own sequence number and command, and messages of a session carry strictly increasing sequence numbers. Sessions can be opened and closed at any time, and an identifier used again once its session is closed, without affecting each other or the editor connection.',
 ['schedules','histories'],
 'all interleavings of several sessions, their tracer threads and the editor traffic, including sessions ended while running',
 'Tests register one session with a mock and never run two tracers or count responses.',
 [LS+'dap/dap_session_manager.cpp',LS+'dap/dap_session.cpp',LS+'dap/dap_server.cpp',LS+'dap/dap_message_wrappers.cpp',LS+'dap/dap_feature.cpp',LS+'message_router.cpp'],
 [('one queue and thread per session',LS+'dap/dap_session.cpp'),('sequence counter',LS+'dap/dap_server.h')],
 [], ['tunnelled debug messages on the output stream'])
p('C08','The macro tracer stops exactly where it should',
 'For every program, set of breakpoints and sequence of continue, step-in and step-over commands, the tracer stops at exactly the statements prescribed by the sequential execution of the program, with the stack and variable values that execution has there. No command is lost and the session always reports its end exactly once.',
 ['programs','schedules','histories'],
 'all programs of the model, all command sequences, breakpoint changes at stops, and all interleavings of the control thread with the analysis thread',
 'Debugger tests poll with real time on a few programs; a lost wake-up or a race between a stop and a command is not reachable on demand.',
 [PL+'debugging/debugger.cpp',LS+'dap/dap_feature.cpp'],
 [('condition variable hand-shake between control and analysis threads',PL+'debugging/debugger.cpp'),('variable access only while stopped',PL+'debugging/debugger.cpp')],
 [('continue / stop / step-over flags','what the analysis thread does next',PL+'debugging/debugger.cpp')],
 ['stopped, exited and terminated events','stackTrace, scopes and variables responses'])
p('C09','Tracing and editing do not disturb each other',
 'A trace launched when the server is idle runs on the program text as it was then, even if the document is edited, closed or superseded meanwhile, and the editor keeps getting the same diagnostics and answers it would get without the trace. Neither activity crashes the other.',
 ['schedules','histories'],
 'all interleavings of a running or stopped trace with edits, closes and re-analysis of the same program and of its macros',
 'No test runs a debugger and the language server on the same workspace at once.',
 [PL+'workspaces/file_manager_impl.cpp',PL+'debugging/debugger.cpp',PL+'debugging/debug_lib_provider.h',PL+'workspace_manager_impl.h'],
 [('copy on change of files shared with a trace',PL+'workspaces/file_manager_impl.cpp'),('separate analysis for the trace',PL+'debugging/debug_lib_provider.h')],
 [('file table','shared by editor and tracer',PL+'workspaces/file_manager_impl.h')],
 ['stops of the trace','diagnostics and responses of the editor session'])
p('C10','Configuration changes take effect and bad configuration is harmless',
 'A change of the processor-group or program configuration, of the editor settings or of the library folders is reflected by the next analysis of every affected program exactly as after a restart. A missing, unreadable or invalid configuration leaves the last valid one in effect and never stops the analysis of any program; an invalid one is reported, and everything is fully recovered when it is repaired.',
 ['histories','configurations','schedules'],
 'all sequences of valid and invalid configuration contents, edited in the editor or on disk, interleaved with analyses and settings updates',
 'Tests load one fixed configuration per test; transitions between good and bad ones are mostly untested.',
 [PL+'workspaces/workspace.cpp',PL+'config',PL+'lib_config.cpp',PL+'workspaces/library_local.cpp',LS+'lsp/feature_workspace_folders.cpp'],
 [('configuration is reloaded when its file changes',PL+'workspaces/workspace.cpp'),('settings are requested from the client',LS+'lsp/feature_workspace_folders.cpp')],
 [('processor groups and program mappings','active configuration',PL+'workspaces/workspace.h')],
 ['published diagnostics after the next analysis'])
p('C11','File-system failures degrade gracefully and are recovered from',
 'If reading, opening or listing any file or folder fails or is cut short at any moment, the server keeps running, keeps answering and keeps analysing, treating that file or library as missing or unreadable. Once the failure has gone, the next analysis after a file-change notification gives exactly the fault-free result.',
 ['fault_sequences','histories'],
 'every placement of open, read, stat and directory-listing errors, short reads and descriptor exhaustion during any session',
 'Tests run on a healthy disk or on a mock that never fails part-way.',
 [PL+'workspaces/file_impl.cpp',PL+'workspaces/file_manager_impl.cpp',PL+'workspaces/library_local.cpp','utils/src/native_path.cpp',PL+'workspaces/workspace.cpp',LS+'logger.cpp'],
 [('unreadable files are treated as bad',PL+'workspaces/file_impl.cpp'),('listing failures reported per library','utils/src/native_path.cpp')],
 [], ['process liveness','diagnostics during and after the faults'])
p('C12','Open documents shadow the disk; everything else follows the disk',
 'While a document is open its editor text is what every analysis uses, including as macro or copy member of other programs, regardless of the file on disk. Once it is closed, and whenever a file that is not open is reported as changed, created or deleted on disk, the next analysis uses the disk content.',
 ['histories','schedules'],
 'all sequences of opening, editing, saving, closing, on-disk changes and change notifications over programs, macros and copy members',
 'Tests use fixed mock files whose content never changes behind the server.',
 [PL+'workspaces/file_impl.cpp',PL+'workspaces/file_manager_impl.cpp',PL+'workspaces/workspace.cpp',PL+'workspaces/library_local.cpp'],
 [('editing flag prevents reloads',PL+'workspaces/file_impl.cpp'),('libraries are re-listed on change notifications',PL+'workspaces/workspace.cpp')],
 [('up-to-date flag','cached text is valid',PL+'workspaces/file_impl.h')],
 ['published diagnostics after the next analysis'])
p('C13','Every document is governed by its own workspace folder only',
 'At any time a document is analysed with the configuration of the innermost open workspace folder that contains it, or with none if there is no such folder. Adding and removing folders in any order gives the same results as starting with the final set of folders.',
 ['histories','configurations'],
 'all sequences of adding and removing nested, sibling, same-named and prefix-related folders while documents are open',
 'Tests add folders but hardly remove or nest them, and never through the protocol.',
 [PL+'workspace_manager_impl.h',LS+'lsp/feature_workspace_folders.cpp',LS+'feature.cpp'],
 [('longest matching folder',PL+'workspace_manager_impl.h')],
 [('workspace table','open folders',PL+'workspace_manager_impl.h')],
 ['published diagnostics'])
p('C14','Published diagnostics are never torn and never go backwards',
 'While a document is being edited, each set of diagnostics published for it is exactly the set belonging to one of the texts it has had, never a mixture of texts or the result of an unfinished analysis. Successive publications never return to an older text than one already reflected.',
 ['schedules','histories'],
 'all timings of edits to a document against the running analysis, including edits arriving at any point of the analysis',
 'Tests wait for each analysis to end before sending the next edit.',
 [LS+'request_manager.cpp',PL+'workspace_manager_impl.h',PL+'workspaces/processor_file_impl.cpp',PL+'processing/processing_manager.cpp'],
 [('cancelled analyses are not published',PL+'workspace_manager_impl.h'),('cancel flag reset under the queue lock',LS+'request_manager.cpp')],
 [('cancel flag','an analysis in progress is obsolete',LS+'main.cpp')],
 ['sequence of textDocument/publishDiagnostics for the document'])
p('C90','Conditional assembly, expressions and macro expansion follow the language',
 'For every source text, symbols, variable symbols, attributes and macro expansion get the values the HLASM language reference prescribes.',
 ['programs'],'all source texts','Only sampled programs are tested.',
 [PL+'processing',PL+'expressions',PL+'context'],[('statement processors',PL+'processing')],[],['diagnostics and tracer variables'])
p('C91','Instruction operands are checked as the architecture prescribes',
 'Every machine and assembler instruction statement is accepted exactly if its operands are valid for that instruction.',
 ['inputs'],'all statements','Only sampled operands are tested.',
 [PL+'checking'],[('operand checkers',PL+'checking')],[],['diagnostics'])
p('C92','Source text is split into statements as the language prescribes',
 'Continuation, begin, end and continue columns, remarks and processing statements are recognised as prescribed for every text.',
 ['inputs'],'all source texts','Only sampled texts are tested.',
 [PL+'lexing',PL+'parsing'],[('lexer and grammar',PL+'parsing')],[],['semantic tokens and diagnostics'])
p('C93','The editor extension formats continuations and starts the server correctly',
 'The editor-side extension keeps continuation characters in place and starts exactly one server per window.',
 ['histories'],'all editing sessions','Needs the editor host.',
 ['clients/vscode-hlasmplugin/src'],[('extension activation','clients/vscode-hlasmplugin/src/extension.ts')],[],['editor behaviour'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
