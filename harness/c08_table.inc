// Made by tools/mkc08.py: the messages and types of the DAP specification.
#if C08_CHUNK == 0 || C08_CHUNK == -1
M_RESPONSE(AttachResponse, "",)
M_REQUEST(AttachRequest, AttachResponse, "attach",
    F(restart, "__restart", "optional<variant<array<any>,boolean,integer,null,number,object,string>>"))
M_TYPE(Checksum, "",
    F(algorithm, "algorithm", "string")
    F(checksum, "checksum", "string"))
M_TYPE(Source, "",
    F(adapterData, "adapterData", "optional<variant<array<any>,boolean,integer,null,number,object,string>>")
    F(checksums, "checksums", "optional<array<Checksum>>")
    F(name, "name", "optional<string>")
    F(origin, "origin", "optional<string>")
    F(path, "path", "optional<string>")
    F(presentationHint, "presentationHint", "optional<string>")
    F(sourceReference, "sourceReference", "optional<integer>")
    F(sources, "sources", "optional<array<Source>>"))
M_TYPE(Breakpoint, "",
    F(column, "column", "optional<integer>")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(id, "id", "optional<integer>")
    F(instructionReference, "instructionReference", "optional<string>")
    F(line, "line", "optional<integer>")
    F(message, "message", "optional<string>")
    F(offset, "offset", "optional<integer>")
    F(reason, "reason", "optional<string>")
    F(source, "source", "optional<Source>")
    F(verified, "verified", "boolean"))
M_EVENT(BreakpointEvent, "breakpoint",
    F(breakpoint, "breakpoint", "Breakpoint")
    F(reason, "reason", "string"))
M_TYPE(BreakpointLocation, "",
    F(column, "column", "optional<integer>")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(line, "line", "integer"))
M_RESPONSE(BreakpointLocationsResponse, "",
    F(breakpoints, "breakpoints", "array<BreakpointLocation>"))
M_REQUEST(BreakpointLocationsRequest, BreakpointLocationsResponse, "breakpointLocations",
    F(column, "column", "optional<integer>")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(line, "line", "integer")
    F(source, "source", "Source"))
M_RESPONSE(CancelResponse, "",)
M_REQUEST(CancelRequest, CancelResponse, "cancel",
    F(progressId, "progressId", "optional<string>")
    F(requestId, "requestId", "optional<integer>"))
M_TYPE(ColumnDescriptor, "",
    F(attributeName, "attributeName", "string")
    F(format, "format", "optional<string>")
    F(label, "label", "string")
    F(type, "type", "optional<string>")
    F(width, "width", "optional<integer>"))
M_TYPE(BreakpointMode, "",
    F(appliesTo, "appliesTo", "array<string>")
    F(description, "description", "optional<string>")
    F(label, "label", "string")
    F(mode, "mode", "string"))
M_TYPE(ExceptionBreakpointsFilter, "",
    F(conditionDescription, "conditionDescription", "optional<string>")
    F(def, "default", "optional<boolean>")
    F(description, "description", "optional<string>")
    F(filter, "filter", "string")
    F(label, "label", "string")
    F(supportsCondition, "supportsCondition", "optional<boolean>"))
M_TYPE(Capabilities, "",
    F(additionalModuleColumns, "additionalModuleColumns", "optional<array<ColumnDescriptor>>")
    F(breakpointModes, "breakpointModes", "optional<array<BreakpointMode>>")
    F(completionTriggerCharacters, "completionTriggerCharacters", "optional<array<string>>")
    F(exceptionBreakpointFilters, "exceptionBreakpointFilters", "optional<array<ExceptionBreakpointsFilter>>")
    F(supportSuspendDebuggee, "supportSuspendDebuggee", "optional<boolean>")
    F(supportTerminateDebuggee, "supportTerminateDebuggee", "optional<boolean>")
    F(supportedChecksumAlgorithms, "supportedChecksumAlgorithms", "optional<array<string>>")
    F(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest", "optional<boolean>")
    F(supportsCancelRequest, "supportsCancelRequest", "optional<boolean>")
    F(supportsClipboardContext, "supportsClipboardContext", "optional<boolean>")
    F(supportsCompletionsRequest, "supportsCompletionsRequest", "optional<boolean>")
    F(supportsConditionalBreakpoints, "supportsConditionalBreakpoints", "optional<boolean>")
    F(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest", "optional<boolean>")
    F(supportsDataBreakpoints, "supportsDataBreakpoints", "optional<boolean>")
    F(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading", "optional<boolean>")
    F(supportsDisassembleRequest, "supportsDisassembleRequest", "optional<boolean>")
    F(supportsEvaluateForHovers, "supportsEvaluateForHovers", "optional<boolean>")
    F(supportsExceptionFilterOptions, "supportsExceptionFilterOptions", "optional<boolean>")
    F(supportsExceptionInfoRequest, "supportsExceptionInfoRequest", "optional<boolean>")
    F(supportsExceptionOptions, "supportsExceptionOptions", "optional<boolean>")
    F(supportsFunctionBreakpoints, "supportsFunctionBreakpoints", "optional<boolean>")
    F(supportsGotoTargetsRequest, "supportsGotoTargetsRequest", "optional<boolean>")
    F(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints", "optional<boolean>")
    F(supportsInstructionBreakpoints, "supportsInstructionBreakpoints", "optional<boolean>")
    F(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest", "optional<boolean>")
    F(supportsLogPoints, "supportsLogPoints", "optional<boolean>")
    F(supportsModulesRequest, "supportsModulesRequest", "optional<boolean>")
    F(supportsReadMemoryRequest, "supportsReadMemoryRequest", "optional<boolean>")
    F(supportsRestartFrame, "supportsRestartFrame", "optional<boolean>")
    F(supportsRestartRequest, "supportsRestartRequest", "optional<boolean>")
    F(supportsSetExpression, "supportsSetExpression", "optional<boolean>")
    F(supportsSetVariable, "supportsSetVariable", "optional<boolean>")
    F(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests", "optional<boolean>")
    F(supportsStepBack, "supportsStepBack", "optional<boolean>")
    F(supportsStepInTargetsRequest, "supportsStepInTargetsRequest", "optional<boolean>")
    F(supportsSteppingGranularity, "supportsSteppingGranularity", "optional<boolean>")
    F(supportsTerminateRequest, "supportsTerminateRequest", "optional<boolean>")
    F(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest", "optional<boolean>")
    F(supportsValueFormattingOptions, "supportsValueFormattingOptions", "optional<boolean>")
    F(supportsWriteMemoryRequest, "supportsWriteMemoryRequest", "optional<boolean>"))
M_EVENT(CapabilitiesEvent, "capabilities",
    F(capabilities, "capabilities", "Capabilities"))
M_TYPE(CompletionItem, "",
    F(detail, "detail", "optional<string>")
    F(label, "label", "string")
    F(length, "length", "optional<integer>")
    F(selectionLength, "selectionLength", "optional<integer>")
    F(selectionStart, "selectionStart", "optional<integer>")
    F(sortText, "sortText", "optional<string>")
    F(start, "start", "optional<integer>")
    F(text, "text", "optional<string>")
    F(type, "type", "optional<string>"))
#endif
#if C08_CHUNK == 1 || C08_CHUNK == -1
M_RESPONSE(CompletionsResponse, "",
    F(targets, "targets", "array<CompletionItem>"))
M_REQUEST(CompletionsRequest, CompletionsResponse, "completions",
    F(column, "column", "integer")
    F(frameId, "frameId", "optional<integer>")
    F(line, "line", "optional<integer>")
    F(text, "text", "string"))
M_RESPONSE(ConfigurationDoneResponse, "",)
M_REQUEST(ConfigurationDoneRequest, ConfigurationDoneResponse, "configurationDone",)
M_RESPONSE(ContinueResponse, "",
    F(allThreadsContinued, "allThreadsContinued", "optional<boolean>"))
M_REQUEST(ContinueRequest, ContinueResponse, "continue",
    F(singleThread, "singleThread", "optional<boolean>")
    F(threadId, "threadId", "integer"))
M_EVENT(ContinuedEvent, "continued",
    F(allThreadsContinued, "allThreadsContinued", "optional<boolean>")
    F(threadId, "threadId", "integer"))
M_RESPONSE(DataBreakpointInfoResponse, "",
    F(accessTypes, "accessTypes", "optional<array<string>>")
    F(canPersist, "canPersist", "optional<boolean>")
    F(dataId, "dataId", "variant<string,null>")
    F(description, "description", "string"))
M_REQUEST(DataBreakpointInfoRequest, DataBreakpointInfoResponse, "dataBreakpointInfo",
    F(frameId, "frameId", "optional<integer>")
    F(mode, "mode", "optional<string>")
    F(name, "name", "string")
    F(variablesReference, "variablesReference", "optional<integer>"))
M_TYPE(DisassembledInstruction, "",
    F(address, "address", "string")
    F(column, "column", "optional<integer>")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(instruction, "instruction", "string")
    F(instructionBytes, "instructionBytes", "optional<string>")
    F(line, "line", "optional<integer>")
    F(location, "location", "optional<Source>")
    F(presentationHint, "presentationHint", "optional<string>")
    F(symbol, "symbol", "optional<string>"))
M_RESPONSE(DisassembleResponse, "",
    F(instructions, "instructions", "array<DisassembledInstruction>"))
M_REQUEST(DisassembleRequest, DisassembleResponse, "disassemble",
    F(instructionCount, "instructionCount", "integer")
    F(instructionOffset, "instructionOffset", "optional<integer>")
    F(memoryReference, "memoryReference", "string")
    F(offset, "offset", "optional<integer>")
    F(resolveSymbols, "resolveSymbols", "optional<boolean>"))
M_RESPONSE(DisconnectResponse, "",)
M_REQUEST(DisconnectRequest, DisconnectResponse, "disconnect",
    F(restart, "restart", "optional<boolean>")
    F(suspendDebuggee, "suspendDebuggee", "optional<boolean>")
    F(terminateDebuggee, "terminateDebuggee", "optional<boolean>"))
M_TYPE(Message, "",
    F(format, "format", "string")
    F(id, "id", "integer")
    F(sendTelemetry, "sendTelemetry", "optional<boolean>")
    F(showUser, "showUser", "optional<boolean>")
    F(url, "url", "optional<string>")
    F(urlLabel, "urlLabel", "optional<string>")
    F(variables, "variables", "optional<object>"))
M_RESPONSE(ErrorResponse, "",
    F(error, "error", "optional<Message>"))
M_TYPE(VariablePresentationHint, "",
    F(attributes, "attributes", "optional<array<string>>")
    F(kind, "kind", "optional<string>")
    F(lazy, "lazy", "optional<boolean>")
    F(visibility, "visibility", "optional<string>"))
#endif
#if C08_CHUNK == 2 || C08_CHUNK == -1
M_RESPONSE(EvaluateResponse, "",
    F(indexedVariables, "indexedVariables", "optional<integer>")
    F(memoryReference, "memoryReference", "optional<string>")
    F(namedVariables, "namedVariables", "optional<integer>")
    F(presentationHint, "presentationHint", "optional<VariablePresentationHint>")
    F(result, "result", "string")
    F(type, "type", "optional<string>")
    F(variablesReference, "variablesReference", "integer"))
M_TYPE(ValueFormat, "",
    F(hex, "hex", "optional<boolean>"))
M_REQUEST(EvaluateRequest, EvaluateResponse, "evaluate",
    F(context, "context", "optional<string>")
    F(expression, "expression", "string")
    F(format, "format", "optional<ValueFormat>")
    F(frameId, "frameId", "optional<integer>"))
M_TYPE(ExceptionDetails, "",
    F(evaluateName, "evaluateName", "optional<string>")
    F(fullTypeName, "fullTypeName", "optional<string>")
    F(innerException, "innerException", "optional<array<ExceptionDetails>>")
    F(message, "message", "optional<string>")
    F(stackTrace, "stackTrace", "optional<string>")
    F(typeName, "typeName", "optional<string>"))
M_RESPONSE(ExceptionInfoResponse, "",
    F(breakMode, "breakMode", "string")
    F(description, "description", "optional<string>")
    F(details, "details", "optional<ExceptionDetails>")
    F(exceptionId, "exceptionId", "string"))
M_REQUEST(ExceptionInfoRequest, ExceptionInfoResponse, "exceptionInfo",
    F(threadId, "threadId", "integer"))
M_EVENT(ExitedEvent, "exited",
    F(exitCode, "exitCode", "integer"))
M_RESPONSE(GotoResponse, "",)
M_REQUEST(GotoRequest, GotoResponse, "goto",
    F(targetId, "targetId", "integer")
    F(threadId, "threadId", "integer"))
M_TYPE(GotoTarget, "",
    F(column, "column", "optional<integer>")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(id, "id", "integer")
    F(instructionPointerReference, "instructionPointerReference", "optional<string>")
    F(label, "label", "string")
    F(line, "line", "integer"))
M_RESPONSE(GotoTargetsResponse, "",
    F(targets, "targets", "array<GotoTarget>"))
M_REQUEST(GotoTargetsRequest, GotoTargetsResponse, "gotoTargets",
    F(column, "column", "optional<integer>")
    F(line, "line", "integer")
    F(source, "source", "Source"))
M_RESPONSE(InitializeResponse, "",
    F(additionalModuleColumns, "additionalModuleColumns", "optional<array<ColumnDescriptor>>")
    F(breakpointModes, "breakpointModes", "optional<array<BreakpointMode>>")
    F(completionTriggerCharacters, "completionTriggerCharacters", "optional<array<string>>")
    F(exceptionBreakpointFilters, "exceptionBreakpointFilters", "optional<array<ExceptionBreakpointsFilter>>")
    F(supportSuspendDebuggee, "supportSuspendDebuggee", "optional<boolean>")
    F(supportTerminateDebuggee, "supportTerminateDebuggee", "optional<boolean>")
    F(supportedChecksumAlgorithms, "supportedChecksumAlgorithms", "optional<array<string>>")
    F(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest", "optional<boolean>")
    F(supportsCancelRequest, "supportsCancelRequest", "optional<boolean>")
    F(supportsClipboardContext, "supportsClipboardContext", "optional<boolean>")
    F(supportsCompletionsRequest, "supportsCompletionsRequest", "optional<boolean>")
    F(supportsConditionalBreakpoints, "supportsConditionalBreakpoints", "optional<boolean>")
    F(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest", "optional<boolean>")
    F(supportsDataBreakpoints, "supportsDataBreakpoints", "optional<boolean>")
    F(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading", "optional<boolean>")
    F(supportsDisassembleRequest, "supportsDisassembleRequest", "optional<boolean>")
    F(supportsEvaluateForHovers, "supportsEvaluateForHovers", "optional<boolean>")
    F(supportsExceptionFilterOptions, "supportsExceptionFilterOptions", "optional<boolean>")
    F(supportsExceptionInfoRequest, "supportsExceptionInfoRequest", "optional<boolean>")
    F(supportsExceptionOptions, "supportsExceptionOptions", "optional<boolean>")
    F(supportsFunctionBreakpoints, "supportsFunctionBreakpoints", "optional<boolean>")
    F(supportsGotoTargetsRequest, "supportsGotoTargetsRequest", "optional<boolean>")
    F(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints", "optional<boolean>")
    F(supportsInstructionBreakpoints, "supportsInstructionBreakpoints", "optional<boolean>")
    F(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest", "optional<boolean>")
    F(supportsLogPoints, "supportsLogPoints", "optional<boolean>")
    F(supportsModulesRequest, "supportsModulesRequest", "optional<boolean>")
    F(supportsReadMemoryRequest, "supportsReadMemoryRequest", "optional<boolean>")
    F(supportsRestartFrame, "supportsRestartFrame", "optional<boolean>")
    F(supportsRestartRequest, "supportsRestartRequest", "optional<boolean>")
    F(supportsSetExpression, "supportsSetExpression", "optional<boolean>")
    F(supportsSetVariable, "supportsSetVariable", "optional<boolean>")
    F(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests", "optional<boolean>")
    F(supportsStepBack, "supportsStepBack", "optional<boolean>")
    F(supportsStepInTargetsRequest, "supportsStepInTargetsRequest", "optional<boolean>")
    F(supportsSteppingGranularity, "supportsSteppingGranularity", "optional<boolean>")
    F(supportsTerminateRequest, "supportsTerminateRequest", "optional<boolean>")
    F(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest", "optional<boolean>")
    F(supportsValueFormattingOptions, "supportsValueFormattingOptions", "optional<boolean>")
    F(supportsWriteMemoryRequest, "supportsWriteMemoryRequest", "optional<boolean>"))
M_REQUEST(InitializeRequest, InitializeResponse, "initialize",
    F(adapterID, "adapterID", "string")
    F(clientID, "clientID", "optional<string>")
    F(clientName, "clientName", "optional<string>")
    F(columnsStartAt1, "columnsStartAt1", "optional<boolean>")
    F(linesStartAt1, "linesStartAt1", "optional<boolean>")
    F(locale, "locale", "optional<string>")
    F(pathFormat, "pathFormat", "optional<string>")
    F(supportsArgsCanBeInterpretedByShell, "supportsArgsCanBeInterpretedByShell", "optional<boolean>")
    F(supportsInvalidatedEvent, "supportsInvalidatedEvent", "optional<boolean>")
    F(supportsMemoryEvent, "supportsMemoryEvent", "optional<boolean>")
    F(supportsMemoryReferences, "supportsMemoryReferences", "optional<boolean>")
    F(supportsProgressReporting, "supportsProgressReporting", "optional<boolean>")
    F(supportsRunInTerminalRequest, "supportsRunInTerminalRequest", "optional<boolean>")
    F(supportsStartDebuggingRequest, "supportsStartDebuggingRequest", "optional<boolean>")
    F(supportsVariablePaging, "supportsVariablePaging", "optional<boolean>")
    F(supportsVariableType, "supportsVariableType", "optional<boolean>"))
M_EVENT(InitializedEvent, "initialized",)
M_EVENT(InvalidatedEvent, "invalidated",
    F(areas, "areas", "optional<array<string>>")
    F(stackFrameId, "stackFrameId", "optional<integer>")
    F(threadId, "threadId", "optional<integer>"))
M_RESPONSE(LaunchResponse, "",)
#endif
#if C08_CHUNK == 3 || C08_CHUNK == -1
M_REQUEST(LaunchRequest, LaunchResponse, "launch",
    F(restart, "__restart", "optional<variant<array<any>,boolean,integer,null,number,object,string>>")
    F(noDebug, "noDebug", "optional<boolean>"))
M_EVENT(LoadedSourceEvent, "loadedSource",
    F(reason, "reason", "string")
    F(source, "source", "Source"))
M_RESPONSE(LoadedSourcesResponse, "",
    F(sources, "sources", "array<Source>"))
M_REQUEST(LoadedSourcesRequest, LoadedSourcesResponse, "loadedSources",)
M_EVENT(MemoryEvent, "memory",
    F(count, "count", "integer")
    F(memoryReference, "memoryReference", "string")
    F(offset, "offset", "integer"))
M_TYPE(Module, "",
    F(addressRange, "addressRange", "optional<string>")
    F(dateTimeStamp, "dateTimeStamp", "optional<string>")
    F(id, "id", "variant<integer,string>")
    F(isOptimized, "isOptimized", "optional<boolean>")
    F(isUserCode, "isUserCode", "optional<boolean>")
    F(name, "name", "string")
    F(path, "path", "optional<string>")
    F(symbolFilePath, "symbolFilePath", "optional<string>")
    F(symbolStatus, "symbolStatus", "optional<string>")
    F(version, "version", "optional<string>"))
M_EVENT(ModuleEvent, "module",
    F(module, "module", "Module")
    F(reason, "reason", "string"))
M_RESPONSE(ModulesResponse, "",
    F(modules, "modules", "array<Module>")
    F(totalModules, "totalModules", "optional<integer>"))
M_REQUEST(ModulesRequest, ModulesResponse, "modules",
    F(moduleCount, "moduleCount", "optional<integer>")
    F(startModule, "startModule", "optional<integer>"))
M_RESPONSE(NextResponse, "",)
M_REQUEST(NextRequest, NextResponse, "next",
    F(granularity, "granularity", "optional<string>")
    F(singleThread, "singleThread", "optional<boolean>")
    F(threadId, "threadId", "integer"))
M_EVENT(OutputEvent, "output",
    F(category, "category", "optional<string>")
    F(column, "column", "optional<integer>")
    F(data, "data", "optional<variant<array<any>,boolean,integer,null,number,object,string>>")
    F(group, "group", "optional<string>")
    F(line, "line", "optional<integer>")
    F(output, "output", "string")
    F(source, "source", "optional<Source>")
    F(variablesReference, "variablesReference", "optional<integer>"))
M_RESPONSE(PauseResponse, "",)
M_REQUEST(PauseRequest, PauseResponse, "pause",
    F(threadId, "threadId", "integer"))
M_EVENT(ProcessEvent, "process",
    F(isLocalProcess, "isLocalProcess", "optional<boolean>")
    F(name, "name", "string")
    F(pointerSize, "pointerSize", "optional<integer>")
    F(startMethod, "startMethod", "optional<string>")
    F(systemProcessId, "systemProcessId", "optional<integer>"))
M_EVENT(ProgressEndEvent, "progressEnd",
    F(message, "message", "optional<string>")
    F(progressId, "progressId", "string"))
M_EVENT(ProgressStartEvent, "progressStart",
    F(cancellable, "cancellable", "optional<boolean>")
    F(message, "message", "optional<string>")
    F(percentage, "percentage", "optional<number>")
    F(progressId, "progressId", "string")
    F(requestId, "requestId", "optional<integer>")
    F(title, "title", "string"))
#endif
#if C08_CHUNK == 4 || C08_CHUNK == -1
M_EVENT(ProgressUpdateEvent, "progressUpdate",
    F(message, "message", "optional<string>")
    F(percentage, "percentage", "optional<number>")
    F(progressId, "progressId", "string"))
M_RESPONSE(ReadMemoryResponse, "",
    F(address, "address", "string")
    F(data, "data", "optional<string>")
    F(unreadableBytes, "unreadableBytes", "optional<integer>"))
M_REQUEST(ReadMemoryRequest, ReadMemoryResponse, "readMemory",
    F(count, "count", "integer")
    F(memoryReference, "memoryReference", "string")
    F(offset, "offset", "optional<integer>"))
M_RESPONSE(RestartFrameResponse, "",)
M_REQUEST(RestartFrameRequest, RestartFrameResponse, "restartFrame",
    F(frameId, "frameId", "integer"))
M_RESPONSE(RestartResponse, "",)
M_REQUEST(RestartRequest, RestartResponse, "restart",
    F(arguments, "arguments", "optional<object>"))
M_RESPONSE(ReverseContinueResponse, "",)
M_REQUEST(ReverseContinueRequest, ReverseContinueResponse, "reverseContinue",
    F(singleThread, "singleThread", "optional<boolean>")
    F(threadId, "threadId", "integer"))
M_RESPONSE(RunInTerminalResponse, "",
    F(processId, "processId", "optional<integer>")
    F(shellProcessId, "shellProcessId", "optional<integer>"))
M_REQUEST(RunInTerminalRequest, RunInTerminalResponse, "runInTerminal",
    F(args, "args", "array<string>")
    F(argsCanBeInterpretedByShell, "argsCanBeInterpretedByShell", "optional<boolean>")
    F(cwd, "cwd", "string")
    F(env, "env", "optional<object>")
    F(kind, "kind", "optional<string>")
    F(title, "title", "optional<string>"))
M_TYPE(Scope, "",
    F(column, "column", "optional<integer>")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(expensive, "expensive", "boolean")
    F(indexedVariables, "indexedVariables", "optional<integer>")
    F(line, "line", "optional<integer>")
    F(name, "name", "string")
    F(namedVariables, "namedVariables", "optional<integer>")
    F(presentationHint, "presentationHint", "optional<string>")
    F(source, "source", "optional<Source>")
    F(variablesReference, "variablesReference", "integer"))
M_RESPONSE(ScopesResponse, "",
    F(scopes, "scopes", "array<Scope>"))
M_REQUEST(ScopesRequest, ScopesResponse, "scopes",
    F(frameId, "frameId", "integer"))
M_RESPONSE(SetBreakpointsResponse, "",
    F(breakpoints, "breakpoints", "array<Breakpoint>"))
M_TYPE(SourceBreakpoint, "",
    F(column, "column", "optional<integer>")
    F(condition, "condition", "optional<string>")
    F(hitCondition, "hitCondition", "optional<string>")
    F(line, "line", "integer")
    F(logMessage, "logMessage", "optional<string>")
    F(mode, "mode", "optional<string>"))
M_REQUEST(SetBreakpointsRequest, SetBreakpointsResponse, "setBreakpoints",
    F(breakpoints, "breakpoints", "optional<array<SourceBreakpoint>>")
    F(lines, "lines", "optional<array<integer>>")
    F(source, "source", "Source")
    F(sourceModified, "sourceModified", "optional<boolean>"))
#endif
#if C08_CHUNK == 5 || C08_CHUNK == -1
M_RESPONSE(SetDataBreakpointsResponse, "",
    F(breakpoints, "breakpoints", "array<Breakpoint>"))
M_TYPE(DataBreakpoint, "",
    F(accessType, "accessType", "optional<string>")
    F(condition, "condition", "optional<string>")
    F(dataId, "dataId", "string")
    F(hitCondition, "hitCondition", "optional<string>"))
M_REQUEST(SetDataBreakpointsRequest, SetDataBreakpointsResponse, "setDataBreakpoints",
    F(breakpoints, "breakpoints", "array<DataBreakpoint>"))
M_RESPONSE(SetExceptionBreakpointsResponse, "",
    F(breakpoints, "breakpoints", "optional<array<Breakpoint>>"))
M_TYPE(ExceptionPathSegment, "",
    F(names, "names", "array<string>")
    F(negate, "negate", "optional<boolean>"))
M_TYPE(ExceptionOptions, "",
    F(breakMode, "breakMode", "string")
    F(path, "path", "optional<array<ExceptionPathSegment>>"))
M_TYPE(ExceptionFilterOptions, "",
    F(condition, "condition", "optional<string>")
    F(filterId, "filterId", "string")
    F(mode, "mode", "optional<string>"))
M_REQUEST(SetExceptionBreakpointsRequest, SetExceptionBreakpointsResponse, "setExceptionBreakpoints",
    F(exceptionOptions, "exceptionOptions", "optional<array<ExceptionOptions>>")
    F(filterOptions, "filterOptions", "optional<array<ExceptionFilterOptions>>")
    F(filters, "filters", "array<string>"))
M_RESPONSE(SetExpressionResponse, "",
    F(indexedVariables, "indexedVariables", "optional<integer>")
    F(memoryReference, "memoryReference", "optional<string>")
    F(namedVariables, "namedVariables", "optional<integer>")
    F(presentationHint, "presentationHint", "optional<VariablePresentationHint>")
    F(type, "type", "optional<string>")
    F(value, "value", "string")
    F(variablesReference, "variablesReference", "optional<integer>"))
M_REQUEST(SetExpressionRequest, SetExpressionResponse, "setExpression",
    F(expression, "expression", "string")
    F(format, "format", "optional<ValueFormat>")
    F(frameId, "frameId", "optional<integer>")
    F(value, "value", "string"))
M_RESPONSE(SetFunctionBreakpointsResponse, "",
    F(breakpoints, "breakpoints", "array<Breakpoint>"))
M_TYPE(FunctionBreakpoint, "",
    F(condition, "condition", "optional<string>")
    F(hitCondition, "hitCondition", "optional<string>")
    F(name, "name", "string"))
M_REQUEST(SetFunctionBreakpointsRequest, SetFunctionBreakpointsResponse, "setFunctionBreakpoints",
    F(breakpoints, "breakpoints", "array<FunctionBreakpoint>"))
M_RESPONSE(SetInstructionBreakpointsResponse, "",
    F(breakpoints, "breakpoints", "array<Breakpoint>"))
M_TYPE(InstructionBreakpoint, "",
    F(condition, "condition", "optional<string>")
    F(hitCondition, "hitCondition", "optional<string>")
    F(instructionReference, "instructionReference", "string")
    F(mode, "mode", "optional<string>")
    F(offset, "offset", "optional<integer>"))
M_REQUEST(SetInstructionBreakpointsRequest, SetInstructionBreakpointsResponse, "setInstructionBreakpoints",
    F(breakpoints, "breakpoints", "array<InstructionBreakpoint>"))
M_RESPONSE(SetVariableResponse, "",
    F(indexedVariables, "indexedVariables", "optional<integer>")
    F(memoryReference, "memoryReference", "optional<string>")
    F(namedVariables, "namedVariables", "optional<integer>")
    F(type, "type", "optional<string>")
    F(value, "value", "string")
    F(variablesReference, "variablesReference", "optional<integer>"))
#endif
#if C08_CHUNK == 6 || C08_CHUNK == -1
M_REQUEST(SetVariableRequest, SetVariableResponse, "setVariable",
    F(format, "format", "optional<ValueFormat>")
    F(name, "name", "string")
    F(value, "value", "string")
    F(variablesReference, "variablesReference", "integer"))
M_RESPONSE(SourceResponse, "",
    F(content, "content", "string")
    F(mimeType, "mimeType", "optional<string>"))
M_REQUEST(SourceRequest, SourceResponse, "source",
    F(source, "source", "optional<Source>")
    F(sourceReference, "sourceReference", "integer"))
M_TYPE(StackFrame, "",
    F(canRestart, "canRestart", "optional<boolean>")
    F(column, "column", "integer")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(id, "id", "integer")
    F(instructionPointerReference, "instructionPointerReference", "optional<string>")
    F(line, "line", "integer")
    F(moduleId, "moduleId", "optional<variant<integer,string>>")
    F(name, "name", "string")
    F(presentationHint, "presentationHint", "optional<string>")
    F(source, "source", "optional<Source>"))
M_RESPONSE(StackTraceResponse, "",
    F(stackFrames, "stackFrames", "array<StackFrame>")
    F(totalFrames, "totalFrames", "optional<integer>"))
M_TYPE(StackFrameFormat, "",
    F(hex, "hex", "optional<boolean>")
    F(includeAll, "includeAll", "optional<boolean>")
    F(line, "line", "optional<boolean>")
    F(module, "module", "optional<boolean>")
    F(parameterNames, "parameterNames", "optional<boolean>")
    F(parameterTypes, "parameterTypes", "optional<boolean>")
    F(parameterValues, "parameterValues", "optional<boolean>")
    F(parameters, "parameters", "optional<boolean>"))
M_REQUEST(StackTraceRequest, StackTraceResponse, "stackTrace",
    F(format, "format", "optional<StackFrameFormat>")
    F(levels, "levels", "optional<integer>")
    F(startFrame, "startFrame", "optional<integer>")
    F(threadId, "threadId", "integer"))
M_RESPONSE(StartDebuggingResponse, "",)
M_REQUEST(StartDebuggingRequest, StartDebuggingResponse, "startDebugging",
    F(configuration, "configuration", "object")
    F(request, "request", "string"))
M_RESPONSE(StepBackResponse, "",)
M_REQUEST(StepBackRequest, StepBackResponse, "stepBack",
    F(granularity, "granularity", "optional<string>")
    F(singleThread, "singleThread", "optional<boolean>")
    F(threadId, "threadId", "integer"))
M_RESPONSE(StepInResponse, "",)
M_REQUEST(StepInRequest, StepInResponse, "stepIn",
    F(granularity, "granularity", "optional<string>")
    F(singleThread, "singleThread", "optional<boolean>")
    F(targetId, "targetId", "optional<integer>")
    F(threadId, "threadId", "integer"))
M_TYPE(StepInTarget, "",
    F(column, "column", "optional<integer>")
    F(endColumn, "endColumn", "optional<integer>")
    F(endLine, "endLine", "optional<integer>")
    F(id, "id", "integer")
    F(label, "label", "string")
    F(line, "line", "optional<integer>"))
M_RESPONSE(StepInTargetsResponse, "",
    F(targets, "targets", "array<StepInTarget>"))
M_REQUEST(StepInTargetsRequest, StepInTargetsResponse, "stepInTargets",
    F(frameId, "frameId", "integer"))
M_RESPONSE(StepOutResponse, "",)
#endif
#if C08_CHUNK == 7 || C08_CHUNK == -1
M_REQUEST(StepOutRequest, StepOutResponse, "stepOut",
    F(granularity, "granularity", "optional<string>")
    F(singleThread, "singleThread", "optional<boolean>")
    F(threadId, "threadId", "integer"))
M_EVENT(StoppedEvent, "stopped",
    F(allThreadsStopped, "allThreadsStopped", "optional<boolean>")
    F(description, "description", "optional<string>")
    F(hitBreakpointIds, "hitBreakpointIds", "optional<array<integer>>")
    F(preserveFocusHint, "preserveFocusHint", "optional<boolean>")
    F(reason, "reason", "string")
    F(text, "text", "optional<string>")
    F(threadId, "threadId", "optional<integer>"))
M_RESPONSE(TerminateResponse, "",)
M_REQUEST(TerminateRequest, TerminateResponse, "terminate",
    F(restart, "restart", "optional<boolean>"))
M_RESPONSE(TerminateThreadsResponse, "",)
M_REQUEST(TerminateThreadsRequest, TerminateThreadsResponse, "terminateThreads",
    F(threadIds, "threadIds", "optional<array<integer>>"))
M_EVENT(TerminatedEvent, "terminated",
    F(restart, "restart", "optional<variant<array<any>,boolean,integer,null,number,object,string>>"))
M_EVENT(ThreadEvent, "thread",
    F(reason, "reason", "string")
    F(threadId, "threadId", "integer"))
M_TYPE(Thread, "",
    F(id, "id", "integer")
    F(name, "name", "string"))
M_RESPONSE(ThreadsResponse, "",
    F(threads, "threads", "array<Thread>"))
M_REQUEST(ThreadsRequest, ThreadsResponse, "threads",)
M_TYPE(Variable, "",
    F(evaluateName, "evaluateName", "optional<string>")
    F(indexedVariables, "indexedVariables", "optional<integer>")
    F(memoryReference, "memoryReference", "optional<string>")
    F(name, "name", "string")
    F(namedVariables, "namedVariables", "optional<integer>")
    F(presentationHint, "presentationHint", "optional<VariablePresentationHint>")
    F(type, "type", "optional<string>")
    F(value, "value", "string")
    F(variablesReference, "variablesReference", "integer"))
M_RESPONSE(VariablesResponse, "",
    F(variables, "variables", "array<Variable>"))
M_REQUEST(VariablesRequest, VariablesResponse, "variables",
    F(count, "count", "optional<integer>")
    F(filter, "filter", "optional<string>")
    F(format, "format", "optional<ValueFormat>")
    F(start, "start", "optional<integer>")
    F(variablesReference, "variablesReference", "integer"))
M_RESPONSE(WriteMemoryResponse, "",
    F(bytesWritten, "bytesWritten", "optional<integer>")
    F(offset, "offset", "optional<integer>"))
M_REQUEST(WriteMemoryRequest, WriteMemoryResponse, "writeMemory",
    F(allowPartial, "allowPartial", "optional<boolean>")
    F(data, "data", "string")
    F(memoryReference, "memoryReference", "string")
    F(offset, "offset", "optional<integer>"))
#endif
