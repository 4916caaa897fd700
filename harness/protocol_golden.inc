// Generated once by tools/gen_protocol_golden.py and committed: the expected wire
// form of every protocol type.  G(struct, kind, message name, fields), F(member,
// wire name, required, type).
G_BEGIN(AttachResponse, Response, "", NoResponse)
G_END(AttachResponse)
G_BEGIN(AttachRequest, Request, "attach", AttachResponse)
  F(restart, "__restart", 0, (optional<variant<array<any>, boolean, integer, null, number, object, string>>))
G_END(AttachRequest)
G_BEGIN(Checksum, Type, "", NoResponse)
  F(algorithm, "algorithm", 1, (ChecksumAlgorithm))
  F(checksum, "checksum", 1, (string))
G_END(Checksum)
G_BEGIN(Source, Type, "", NoResponse)
  F(adapterData, "adapterData", 0, (optional<variant<array<any>, boolean, integer, null, number, object, string>>))
  F(checksums, "checksums", 0, (optional<array<Checksum>>))
  F(name, "name", 0, (optional<string>))
  F(origin, "origin", 0, (optional<string>))
  F(path, "path", 0, (optional<string>))
  F(presentationHint, "presentationHint", 0, (optional<string>))
  F(sourceReference, "sourceReference", 0, (optional<integer>))
  F(sources, "sources", 0, (optional<array<Source>>))
G_END(Source)
G_BEGIN(Breakpoint, Type, "", NoResponse)
  F(column, "column", 0, (optional<integer>))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(id, "id", 0, (optional<integer>))
  F(instructionReference, "instructionReference", 0, (optional<string>))
  F(line, "line", 0, (optional<integer>))
  F(message, "message", 0, (optional<string>))
  F(offset, "offset", 0, (optional<integer>))
  F(reason, "reason", 0, (optional<string>))
  F(source, "source", 0, (optional<Source>))
  F(verified, "verified", 1, (boolean))
G_END(Breakpoint)
G_BEGIN(BreakpointEvent, Event, "breakpoint", NoResponse)
  F(breakpoint, "breakpoint", 1, (Breakpoint))
  F(reason, "reason", 1, (string))
G_END(BreakpointEvent)
G_BEGIN(BreakpointLocation, Type, "", NoResponse)
  F(column, "column", 0, (optional<integer>))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(line, "line", 1, (integer))
G_END(BreakpointLocation)
G_BEGIN(BreakpointLocationsResponse, Response, "", NoResponse)
  F(breakpoints, "breakpoints", 1, (array<BreakpointLocation>))
G_END(BreakpointLocationsResponse)
G_BEGIN(BreakpointLocationsRequest, Request, "breakpointLocations", BreakpointLocationsResponse)
  F(column, "column", 0, (optional<integer>))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(line, "line", 1, (integer))
  F(source, "source", 1, (Source))
G_END(BreakpointLocationsRequest)
G_BEGIN(CancelResponse, Response, "", NoResponse)
G_END(CancelResponse)
G_BEGIN(CancelRequest, Request, "cancel", CancelResponse)
  F(progressId, "progressId", 0, (optional<string>))
  F(requestId, "requestId", 0, (optional<integer>))
G_END(CancelRequest)
G_BEGIN(ColumnDescriptor, Type, "", NoResponse)
  F(attributeName, "attributeName", 1, (string))
  F(format, "format", 0, (optional<string>))
  F(label, "label", 1, (string))
  F(type, "type", 0, (optional<string>))
  F(width, "width", 0, (optional<integer>))
G_END(ColumnDescriptor)
G_BEGIN(BreakpointMode, Type, "", NoResponse)
  F(appliesTo, "appliesTo", 1, (array<BreakpointModeApplicability>))
  F(description, "description", 0, (optional<string>))
  F(label, "label", 1, (string))
  F(mode, "mode", 1, (string))
G_END(BreakpointMode)
G_BEGIN(ExceptionBreakpointsFilter, Type, "", NoResponse)
  F(conditionDescription, "conditionDescription", 0, (optional<string>))
  F(def, "default", 0, (optional<boolean>))
  F(description, "description", 0, (optional<string>))
  F(filter, "filter", 1, (string))
  F(label, "label", 1, (string))
  F(supportsCondition, "supportsCondition", 0, (optional<boolean>))
G_END(ExceptionBreakpointsFilter)
G_BEGIN(Capabilities, Type, "", NoResponse)
  F(additionalModuleColumns, "additionalModuleColumns", 0, (optional<array<ColumnDescriptor>>))
  F(breakpointModes, "breakpointModes", 0, (optional<array<BreakpointMode>>))
  F(completionTriggerCharacters, "completionTriggerCharacters", 0, (optional<array<string>>))
  F(exceptionBreakpointFilters, "exceptionBreakpointFilters", 0, (optional<array<ExceptionBreakpointsFilter>>))
  F(supportSuspendDebuggee, "supportSuspendDebuggee", 0, (optional<boolean>))
  F(supportTerminateDebuggee, "supportTerminateDebuggee", 0, (optional<boolean>))
  F(supportedChecksumAlgorithms, "supportedChecksumAlgorithms", 0, (optional<array<ChecksumAlgorithm>>))
  F(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest", 0, (optional<boolean>))
  F(supportsCancelRequest, "supportsCancelRequest", 0, (optional<boolean>))
  F(supportsClipboardContext, "supportsClipboardContext", 0, (optional<boolean>))
  F(supportsCompletionsRequest, "supportsCompletionsRequest", 0, (optional<boolean>))
  F(supportsConditionalBreakpoints, "supportsConditionalBreakpoints", 0, (optional<boolean>))
  F(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest", 0, (optional<boolean>))
  F(supportsDataBreakpoints, "supportsDataBreakpoints", 0, (optional<boolean>))
  F(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading", 0, (optional<boolean>))
  F(supportsDisassembleRequest, "supportsDisassembleRequest", 0, (optional<boolean>))
  F(supportsEvaluateForHovers, "supportsEvaluateForHovers", 0, (optional<boolean>))
  F(supportsExceptionFilterOptions, "supportsExceptionFilterOptions", 0, (optional<boolean>))
  F(supportsExceptionInfoRequest, "supportsExceptionInfoRequest", 0, (optional<boolean>))
  F(supportsExceptionOptions, "supportsExceptionOptions", 0, (optional<boolean>))
  F(supportsFunctionBreakpoints, "supportsFunctionBreakpoints", 0, (optional<boolean>))
  F(supportsGotoTargetsRequest, "supportsGotoTargetsRequest", 0, (optional<boolean>))
  F(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints", 0, (optional<boolean>))
  F(supportsInstructionBreakpoints, "supportsInstructionBreakpoints", 0, (optional<boolean>))
  F(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest", 0, (optional<boolean>))
  F(supportsLogPoints, "supportsLogPoints", 0, (optional<boolean>))
  F(supportsModulesRequest, "supportsModulesRequest", 0, (optional<boolean>))
  F(supportsReadMemoryRequest, "supportsReadMemoryRequest", 0, (optional<boolean>))
  F(supportsRestartFrame, "supportsRestartFrame", 0, (optional<boolean>))
  F(supportsRestartRequest, "supportsRestartRequest", 0, (optional<boolean>))
  F(supportsSetExpression, "supportsSetExpression", 0, (optional<boolean>))
  F(supportsSetVariable, "supportsSetVariable", 0, (optional<boolean>))
  F(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests", 0, (optional<boolean>))
  F(supportsStepBack, "supportsStepBack", 0, (optional<boolean>))
  F(supportsStepInTargetsRequest, "supportsStepInTargetsRequest", 0, (optional<boolean>))
  F(supportsSteppingGranularity, "supportsSteppingGranularity", 0, (optional<boolean>))
  F(supportsTerminateRequest, "supportsTerminateRequest", 0, (optional<boolean>))
  F(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest", 0, (optional<boolean>))
  F(supportsValueFormattingOptions, "supportsValueFormattingOptions", 0, (optional<boolean>))
  F(supportsWriteMemoryRequest, "supportsWriteMemoryRequest", 0, (optional<boolean>))
G_END(Capabilities)
G_BEGIN(CapabilitiesEvent, Event, "capabilities", NoResponse)
  F(capabilities, "capabilities", 1, (Capabilities))
G_END(CapabilitiesEvent)
G_BEGIN(CompletionItem, Type, "", NoResponse)
  F(detail, "detail", 0, (optional<string>))
  F(label, "label", 1, (string))
  F(length, "length", 0, (optional<integer>))
  F(selectionLength, "selectionLength", 0, (optional<integer>))
  F(selectionStart, "selectionStart", 0, (optional<integer>))
  F(sortText, "sortText", 0, (optional<string>))
  F(start, "start", 0, (optional<integer>))
  F(text, "text", 0, (optional<string>))
  F(type, "type", 0, (optional<CompletionItemType>))
G_END(CompletionItem)
G_BEGIN(CompletionsResponse, Response, "", NoResponse)
  F(targets, "targets", 1, (array<CompletionItem>))
G_END(CompletionsResponse)
G_BEGIN(CompletionsRequest, Request, "completions", CompletionsResponse)
  F(column, "column", 1, (integer))
  F(frameId, "frameId", 0, (optional<integer>))
  F(line, "line", 0, (optional<integer>))
  F(text, "text", 1, (string))
G_END(CompletionsRequest)
G_BEGIN(ConfigurationDoneResponse, Response, "", NoResponse)
G_END(ConfigurationDoneResponse)
G_BEGIN(ConfigurationDoneRequest, Request, "configurationDone", ConfigurationDoneResponse)
G_END(ConfigurationDoneRequest)
G_BEGIN(ContinueResponse, Response, "", NoResponse)
  F(allThreadsContinued, "allThreadsContinued", 0, (optional<boolean>))
G_END(ContinueResponse)
G_BEGIN(ContinueRequest, Request, "continue", ContinueResponse)
  F(singleThread, "singleThread", 0, (optional<boolean>))
  F(threadId, "threadId", 1, (integer))
G_END(ContinueRequest)
G_BEGIN(ContinuedEvent, Event, "continued", NoResponse)
  F(allThreadsContinued, "allThreadsContinued", 0, (optional<boolean>))
  F(threadId, "threadId", 1, (integer))
G_END(ContinuedEvent)
G_BEGIN(DataBreakpointInfoResponse, Response, "", NoResponse)
  F(accessTypes, "accessTypes", 0, (optional<array<DataBreakpointAccessType>>))
  F(canPersist, "canPersist", 0, (optional<boolean>))
  F(dataId, "dataId", 1, (variant<string, null>))
  F(description, "description", 1, (string))
G_END(DataBreakpointInfoResponse)
G_BEGIN(DataBreakpointInfoRequest, Request, "dataBreakpointInfo", DataBreakpointInfoResponse)
  F(frameId, "frameId", 0, (optional<integer>))
  F(mode, "mode", 0, (optional<string>))
  F(name, "name", 1, (string))
  F(variablesReference, "variablesReference", 0, (optional<integer>))
G_END(DataBreakpointInfoRequest)
G_BEGIN(DisassembledInstruction, Type, "", NoResponse)
  F(address, "address", 1, (string))
  F(column, "column", 0, (optional<integer>))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(instruction, "instruction", 1, (string))
  F(instructionBytes, "instructionBytes", 0, (optional<string>))
  F(line, "line", 0, (optional<integer>))
  F(location, "location", 0, (optional<Source>))
  F(presentationHint, "presentationHint", 0, (optional<string>))
  F(symbol, "symbol", 0, (optional<string>))
G_END(DisassembledInstruction)
G_BEGIN(DisassembleResponse, Response, "", NoResponse)
  F(instructions, "instructions", 1, (array<DisassembledInstruction>))
G_END(DisassembleResponse)
G_BEGIN(DisassembleRequest, Request, "disassemble", DisassembleResponse)
  F(instructionCount, "instructionCount", 1, (integer))
  F(instructionOffset, "instructionOffset", 0, (optional<integer>))
  F(memoryReference, "memoryReference", 1, (string))
  F(offset, "offset", 0, (optional<integer>))
  F(resolveSymbols, "resolveSymbols", 0, (optional<boolean>))
G_END(DisassembleRequest)
G_BEGIN(DisconnectResponse, Response, "", NoResponse)
G_END(DisconnectResponse)
G_BEGIN(DisconnectRequest, Request, "disconnect", DisconnectResponse)
  F(restart, "restart", 0, (optional<boolean>))
  F(suspendDebuggee, "suspendDebuggee", 0, (optional<boolean>))
  F(terminateDebuggee, "terminateDebuggee", 0, (optional<boolean>))
G_END(DisconnectRequest)
G_BEGIN(Message, Type, "", NoResponse)
  F(format, "format", 1, (string))
  F(id, "id", 1, (integer))
  F(sendTelemetry, "sendTelemetry", 0, (optional<boolean>))
  F(showUser, "showUser", 0, (optional<boolean>))
  F(url, "url", 0, (optional<string>))
  F(urlLabel, "urlLabel", 0, (optional<string>))
  F(variables, "variables", 0, (optional<object>))
G_END(Message)
G_BEGIN(ErrorResponse, Response, "", NoResponse)
  F(error, "error", 0, (optional<Message>))
G_END(ErrorResponse)
G_BEGIN(VariablePresentationHint, Type, "", NoResponse)
  F(attributes, "attributes", 0, (optional<array<string>>))
  F(kind, "kind", 0, (optional<string>))
  F(lazy, "lazy", 0, (optional<boolean>))
  F(visibility, "visibility", 0, (optional<string>))
G_END(VariablePresentationHint)
G_BEGIN(EvaluateResponse, Response, "", NoResponse)
  F(indexedVariables, "indexedVariables", 0, (optional<integer>))
  F(memoryReference, "memoryReference", 0, (optional<string>))
  F(namedVariables, "namedVariables", 0, (optional<integer>))
  F(presentationHint, "presentationHint", 0, (optional<VariablePresentationHint>))
  F(result, "result", 1, (string))
  F(type, "type", 0, (optional<string>))
  F(variablesReference, "variablesReference", 1, (integer))
G_END(EvaluateResponse)
G_BEGIN(ValueFormat, Type, "", NoResponse)
  F(hex, "hex", 0, (optional<boolean>))
G_END(ValueFormat)
G_BEGIN(EvaluateRequest, Request, "evaluate", EvaluateResponse)
  F(context, "context", 0, (optional<string>))
  F(expression, "expression", 1, (string))
  F(format, "format", 0, (optional<ValueFormat>))
  F(frameId, "frameId", 0, (optional<integer>))
G_END(EvaluateRequest)
G_BEGIN(ExceptionDetails, Type, "", NoResponse)
  F(evaluateName, "evaluateName", 0, (optional<string>))
  F(fullTypeName, "fullTypeName", 0, (optional<string>))
  F(innerException, "innerException", 0, (optional<array<ExceptionDetails>>))
  F(message, "message", 0, (optional<string>))
  F(stackTrace, "stackTrace", 0, (optional<string>))
  F(typeName, "typeName", 0, (optional<string>))
G_END(ExceptionDetails)
G_BEGIN(ExceptionInfoResponse, Response, "", NoResponse)
  F(breakMode, "breakMode", 1, (ExceptionBreakMode))
  F(description, "description", 0, (optional<string>))
  F(details, "details", 0, (optional<ExceptionDetails>))
  F(exceptionId, "exceptionId", 1, (string))
G_END(ExceptionInfoResponse)
G_BEGIN(ExceptionInfoRequest, Request, "exceptionInfo", ExceptionInfoResponse)
  F(threadId, "threadId", 1, (integer))
G_END(ExceptionInfoRequest)
G_BEGIN(ExitedEvent, Event, "exited", NoResponse)
  F(exitCode, "exitCode", 1, (integer))
G_END(ExitedEvent)
G_BEGIN(GotoResponse, Response, "", NoResponse)
G_END(GotoResponse)
G_BEGIN(GotoRequest, Request, "goto", GotoResponse)
  F(targetId, "targetId", 1, (integer))
  F(threadId, "threadId", 1, (integer))
G_END(GotoRequest)
G_BEGIN(GotoTarget, Type, "", NoResponse)
  F(column, "column", 0, (optional<integer>))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(id, "id", 1, (integer))
  F(instructionPointerReference, "instructionPointerReference", 0, (optional<string>))
  F(label, "label", 1, (string))
  F(line, "line", 1, (integer))
G_END(GotoTarget)
G_BEGIN(GotoTargetsResponse, Response, "", NoResponse)
  F(targets, "targets", 1, (array<GotoTarget>))
G_END(GotoTargetsResponse)
G_BEGIN(GotoTargetsRequest, Request, "gotoTargets", GotoTargetsResponse)
  F(column, "column", 0, (optional<integer>))
  F(line, "line", 1, (integer))
  F(source, "source", 1, (Source))
G_END(GotoTargetsRequest)
G_BEGIN(InitializeResponse, Response, "", NoResponse)
  F(additionalModuleColumns, "additionalModuleColumns", 0, (optional<array<ColumnDescriptor>>))
  F(breakpointModes, "breakpointModes", 0, (optional<array<BreakpointMode>>))
  F(completionTriggerCharacters, "completionTriggerCharacters", 0, (optional<array<string>>))
  F(exceptionBreakpointFilters, "exceptionBreakpointFilters", 0, (optional<array<ExceptionBreakpointsFilter>>))
  F(supportSuspendDebuggee, "supportSuspendDebuggee", 0, (optional<boolean>))
  F(supportTerminateDebuggee, "supportTerminateDebuggee", 0, (optional<boolean>))
  F(supportedChecksumAlgorithms, "supportedChecksumAlgorithms", 0, (optional<array<ChecksumAlgorithm>>))
  F(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest", 0, (optional<boolean>))
  F(supportsCancelRequest, "supportsCancelRequest", 0, (optional<boolean>))
  F(supportsClipboardContext, "supportsClipboardContext", 0, (optional<boolean>))
  F(supportsCompletionsRequest, "supportsCompletionsRequest", 0, (optional<boolean>))
  F(supportsConditionalBreakpoints, "supportsConditionalBreakpoints", 0, (optional<boolean>))
  F(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest", 0, (optional<boolean>))
  F(supportsDataBreakpoints, "supportsDataBreakpoints", 0, (optional<boolean>))
  F(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading", 0, (optional<boolean>))
  F(supportsDisassembleRequest, "supportsDisassembleRequest", 0, (optional<boolean>))
  F(supportsEvaluateForHovers, "supportsEvaluateForHovers", 0, (optional<boolean>))
  F(supportsExceptionFilterOptions, "supportsExceptionFilterOptions", 0, (optional<boolean>))
  F(supportsExceptionInfoRequest, "supportsExceptionInfoRequest", 0, (optional<boolean>))
  F(supportsExceptionOptions, "supportsExceptionOptions", 0, (optional<boolean>))
  F(supportsFunctionBreakpoints, "supportsFunctionBreakpoints", 0, (optional<boolean>))
  F(supportsGotoTargetsRequest, "supportsGotoTargetsRequest", 0, (optional<boolean>))
  F(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints", 0, (optional<boolean>))
  F(supportsInstructionBreakpoints, "supportsInstructionBreakpoints", 0, (optional<boolean>))
  F(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest", 0, (optional<boolean>))
  F(supportsLogPoints, "supportsLogPoints", 0, (optional<boolean>))
  F(supportsModulesRequest, "supportsModulesRequest", 0, (optional<boolean>))
  F(supportsReadMemoryRequest, "supportsReadMemoryRequest", 0, (optional<boolean>))
  F(supportsRestartFrame, "supportsRestartFrame", 0, (optional<boolean>))
  F(supportsRestartRequest, "supportsRestartRequest", 0, (optional<boolean>))
  F(supportsSetExpression, "supportsSetExpression", 0, (optional<boolean>))
  F(supportsSetVariable, "supportsSetVariable", 0, (optional<boolean>))
  F(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests", 0, (optional<boolean>))
  F(supportsStepBack, "supportsStepBack", 0, (optional<boolean>))
  F(supportsStepInTargetsRequest, "supportsStepInTargetsRequest", 0, (optional<boolean>))
  F(supportsSteppingGranularity, "supportsSteppingGranularity", 0, (optional<boolean>))
  F(supportsTerminateRequest, "supportsTerminateRequest", 0, (optional<boolean>))
  F(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest", 0, (optional<boolean>))
  F(supportsValueFormattingOptions, "supportsValueFormattingOptions", 0, (optional<boolean>))
  F(supportsWriteMemoryRequest, "supportsWriteMemoryRequest", 0, (optional<boolean>))
G_END(InitializeResponse)
G_BEGIN(InitializeRequest, Request, "initialize", InitializeResponse)
  F(adapterID, "adapterID", 1, (string))
  F(clientID, "clientID", 0, (optional<string>))
  F(clientName, "clientName", 0, (optional<string>))
  F(columnsStartAt1, "columnsStartAt1", 0, (optional<boolean>))
  F(linesStartAt1, "linesStartAt1", 0, (optional<boolean>))
  F(locale, "locale", 0, (optional<string>))
  F(pathFormat, "pathFormat", 0, (optional<string>))
  F(supportsArgsCanBeInterpretedByShell, "supportsArgsCanBeInterpretedByShell", 0, (optional<boolean>))
  F(supportsInvalidatedEvent, "supportsInvalidatedEvent", 0, (optional<boolean>))
  F(supportsMemoryEvent, "supportsMemoryEvent", 0, (optional<boolean>))
  F(supportsMemoryReferences, "supportsMemoryReferences", 0, (optional<boolean>))
  F(supportsProgressReporting, "supportsProgressReporting", 0, (optional<boolean>))
  F(supportsRunInTerminalRequest, "supportsRunInTerminalRequest", 0, (optional<boolean>))
  F(supportsStartDebuggingRequest, "supportsStartDebuggingRequest", 0, (optional<boolean>))
  F(supportsVariablePaging, "supportsVariablePaging", 0, (optional<boolean>))
  F(supportsVariableType, "supportsVariableType", 0, (optional<boolean>))
G_END(InitializeRequest)
G_BEGIN(InitializedEvent, Event, "initialized", NoResponse)
G_END(InitializedEvent)
G_BEGIN(InvalidatedEvent, Event, "invalidated", NoResponse)
  F(areas, "areas", 0, (optional<array<InvalidatedAreas>>))
  F(stackFrameId, "stackFrameId", 0, (optional<integer>))
  F(threadId, "threadId", 0, (optional<integer>))
G_END(InvalidatedEvent)
G_BEGIN(LaunchResponse, Response, "", NoResponse)
G_END(LaunchResponse)
G_BEGIN(LaunchRequest, Request, "launch", LaunchResponse)
  F(noDebug, "noDebug", 0, (optional<boolean>))
  F(restart, "__restart", 0, (optional<variant<array<any>, boolean, integer, null, number, object, string>>))
G_END(LaunchRequest)
G_BEGIN(LoadedSourceEvent, Event, "loadedSource", NoResponse)
  F(reason, "reason", 1, (string))
  F(source, "source", 1, (Source))
G_END(LoadedSourceEvent)
G_BEGIN(LoadedSourcesResponse, Response, "", NoResponse)
  F(sources, "sources", 1, (array<Source>))
G_END(LoadedSourcesResponse)
G_BEGIN(LoadedSourcesRequest, Request, "loadedSources", LoadedSourcesResponse)
G_END(LoadedSourcesRequest)
G_BEGIN(MemoryEvent, Event, "memory", NoResponse)
  F(count, "count", 1, (integer))
  F(memoryReference, "memoryReference", 1, (string))
  F(offset, "offset", 1, (integer))
G_END(MemoryEvent)
G_BEGIN(Module, Type, "", NoResponse)
  F(addressRange, "addressRange", 0, (optional<string>))
  F(dateTimeStamp, "dateTimeStamp", 0, (optional<string>))
  F(id, "id", 1, (variant<integer, string>))
  F(isOptimized, "isOptimized", 0, (optional<boolean>))
  F(isUserCode, "isUserCode", 0, (optional<boolean>))
  F(name, "name", 1, (string))
  F(path, "path", 0, (optional<string>))
  F(symbolFilePath, "symbolFilePath", 0, (optional<string>))
  F(symbolStatus, "symbolStatus", 0, (optional<string>))
  F(version, "version", 0, (optional<string>))
G_END(Module)
G_BEGIN(ModuleEvent, Event, "module", NoResponse)
  F(module, "module", 1, (Module))
  F(reason, "reason", 1, (string))
G_END(ModuleEvent)
G_BEGIN(ModulesResponse, Response, "", NoResponse)
  F(modules, "modules", 1, (array<Module>))
  F(totalModules, "totalModules", 0, (optional<integer>))
G_END(ModulesResponse)
G_BEGIN(ModulesRequest, Request, "modules", ModulesResponse)
  F(moduleCount, "moduleCount", 0, (optional<integer>))
  F(startModule, "startModule", 0, (optional<integer>))
G_END(ModulesRequest)
G_BEGIN(NextResponse, Response, "", NoResponse)
G_END(NextResponse)
G_BEGIN(NextRequest, Request, "next", NextResponse)
  F(granularity, "granularity", 0, (optional<SteppingGranularity>))
  F(singleThread, "singleThread", 0, (optional<boolean>))
  F(threadId, "threadId", 1, (integer))
G_END(NextRequest)
G_BEGIN(OutputEvent, Event, "output", NoResponse)
  F(category, "category", 0, (optional<string>))
  F(column, "column", 0, (optional<integer>))
  F(data, "data", 0, (optional<variant<array<any>, boolean, integer, null, number, object, string>>))
  F(group, "group", 0, (optional<string>))
  F(line, "line", 0, (optional<integer>))
  F(output, "output", 1, (string))
  F(source, "source", 0, (optional<Source>))
  F(variablesReference, "variablesReference", 0, (optional<integer>))
G_END(OutputEvent)
G_BEGIN(PauseResponse, Response, "", NoResponse)
G_END(PauseResponse)
G_BEGIN(PauseRequest, Request, "pause", PauseResponse)
  F(threadId, "threadId", 1, (integer))
G_END(PauseRequest)
G_BEGIN(ProcessEvent, Event, "process", NoResponse)
  F(isLocalProcess, "isLocalProcess", 0, (optional<boolean>))
  F(name, "name", 1, (string))
  F(pointerSize, "pointerSize", 0, (optional<integer>))
  F(startMethod, "startMethod", 0, (optional<string>))
  F(systemProcessId, "systemProcessId", 0, (optional<integer>))
G_END(ProcessEvent)
G_BEGIN(ProgressEndEvent, Event, "progressEnd", NoResponse)
  F(message, "message", 0, (optional<string>))
  F(progressId, "progressId", 1, (string))
G_END(ProgressEndEvent)
G_BEGIN(ProgressStartEvent, Event, "progressStart", NoResponse)
  F(cancellable, "cancellable", 0, (optional<boolean>))
  F(message, "message", 0, (optional<string>))
  F(percentage, "percentage", 0, (optional<number>))
  F(progressId, "progressId", 1, (string))
  F(requestId, "requestId", 0, (optional<integer>))
  F(title, "title", 1, (string))
G_END(ProgressStartEvent)
G_BEGIN(ProgressUpdateEvent, Event, "progressUpdate", NoResponse)
  F(message, "message", 0, (optional<string>))
  F(percentage, "percentage", 0, (optional<number>))
  F(progressId, "progressId", 1, (string))
G_END(ProgressUpdateEvent)
G_BEGIN(ReadMemoryResponse, Response, "", NoResponse)
  F(address, "address", 1, (string))
  F(data, "data", 0, (optional<string>))
  F(unreadableBytes, "unreadableBytes", 0, (optional<integer>))
G_END(ReadMemoryResponse)
G_BEGIN(ReadMemoryRequest, Request, "readMemory", ReadMemoryResponse)
  F(count, "count", 1, (integer))
  F(memoryReference, "memoryReference", 1, (string))
  F(offset, "offset", 0, (optional<integer>))
G_END(ReadMemoryRequest)
G_BEGIN(RestartFrameResponse, Response, "", NoResponse)
G_END(RestartFrameResponse)
G_BEGIN(RestartFrameRequest, Request, "restartFrame", RestartFrameResponse)
  F(frameId, "frameId", 1, (integer))
G_END(RestartFrameRequest)
G_BEGIN(RestartResponse, Response, "", NoResponse)
G_END(RestartResponse)
G_BEGIN(RestartRequest, Request, "restart", RestartResponse)
  F(arguments, "arguments", 0, (optional<object>))
G_END(RestartRequest)
G_BEGIN(ReverseContinueResponse, Response, "", NoResponse)
G_END(ReverseContinueResponse)
G_BEGIN(ReverseContinueRequest, Request, "reverseContinue", ReverseContinueResponse)
  F(singleThread, "singleThread", 0, (optional<boolean>))
  F(threadId, "threadId", 1, (integer))
G_END(ReverseContinueRequest)
G_BEGIN(RunInTerminalResponse, Response, "", NoResponse)
  F(processId, "processId", 0, (optional<integer>))
  F(shellProcessId, "shellProcessId", 0, (optional<integer>))
G_END(RunInTerminalResponse)
G_BEGIN(RunInTerminalRequest, Request, "runInTerminal", RunInTerminalResponse)
  F(args, "args", 1, (array<string>))
  F(argsCanBeInterpretedByShell, "argsCanBeInterpretedByShell", 0, (optional<boolean>))
  F(cwd, "cwd", 1, (string))
  F(env, "env", 0, (optional<object>))
  F(kind, "kind", 0, (optional<string>))
  F(title, "title", 0, (optional<string>))
G_END(RunInTerminalRequest)
G_BEGIN(Scope, Type, "", NoResponse)
  F(column, "column", 0, (optional<integer>))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(expensive, "expensive", 1, (boolean))
  F(indexedVariables, "indexedVariables", 0, (optional<integer>))
  F(line, "line", 0, (optional<integer>))
  F(name, "name", 1, (string))
  F(namedVariables, "namedVariables", 0, (optional<integer>))
  F(presentationHint, "presentationHint", 0, (optional<string>))
  F(source, "source", 0, (optional<Source>))
  F(variablesReference, "variablesReference", 1, (integer))
G_END(Scope)
G_BEGIN(ScopesResponse, Response, "", NoResponse)
  F(scopes, "scopes", 1, (array<Scope>))
G_END(ScopesResponse)
G_BEGIN(ScopesRequest, Request, "scopes", ScopesResponse)
  F(frameId, "frameId", 1, (integer))
G_END(ScopesRequest)
G_BEGIN(SetBreakpointsResponse, Response, "", NoResponse)
  F(breakpoints, "breakpoints", 1, (array<Breakpoint>))
G_END(SetBreakpointsResponse)
G_BEGIN(SourceBreakpoint, Type, "", NoResponse)
  F(column, "column", 0, (optional<integer>))
  F(condition, "condition", 0, (optional<string>))
  F(hitCondition, "hitCondition", 0, (optional<string>))
  F(line, "line", 1, (integer))
  F(logMessage, "logMessage", 0, (optional<string>))
  F(mode, "mode", 0, (optional<string>))
G_END(SourceBreakpoint)
G_BEGIN(SetBreakpointsRequest, Request, "setBreakpoints", SetBreakpointsResponse)
  F(breakpoints, "breakpoints", 0, (optional<array<SourceBreakpoint>>))
  F(lines, "lines", 0, (optional<array<integer>>))
  F(source, "source", 1, (Source))
  F(sourceModified, "sourceModified", 0, (optional<boolean>))
G_END(SetBreakpointsRequest)
G_BEGIN(SetDataBreakpointsResponse, Response, "", NoResponse)
  F(breakpoints, "breakpoints", 1, (array<Breakpoint>))
G_END(SetDataBreakpointsResponse)
G_BEGIN(DataBreakpoint, Type, "", NoResponse)
  F(accessType, "accessType", 0, (optional<DataBreakpointAccessType>))
  F(condition, "condition", 0, (optional<string>))
  F(dataId, "dataId", 1, (string))
  F(hitCondition, "hitCondition", 0, (optional<string>))
G_END(DataBreakpoint)
G_BEGIN(SetDataBreakpointsRequest, Request, "setDataBreakpoints", SetDataBreakpointsResponse)
  F(breakpoints, "breakpoints", 1, (array<DataBreakpoint>))
G_END(SetDataBreakpointsRequest)
G_BEGIN(SetExceptionBreakpointsResponse, Response, "", NoResponse)
  F(breakpoints, "breakpoints", 0, (optional<array<Breakpoint>>))
G_END(SetExceptionBreakpointsResponse)
G_BEGIN(ExceptionPathSegment, Type, "", NoResponse)
  F(names, "names", 1, (array<string>))
  F(negate, "negate", 0, (optional<boolean>))
G_END(ExceptionPathSegment)
G_BEGIN(ExceptionOptions, Type, "", NoResponse)
  F(breakMode, "breakMode", 1, (ExceptionBreakMode))
  F(path, "path", 0, (optional<array<ExceptionPathSegment>>))
G_END(ExceptionOptions)
G_BEGIN(ExceptionFilterOptions, Type, "", NoResponse)
  F(condition, "condition", 0, (optional<string>))
  F(filterId, "filterId", 1, (string))
  F(mode, "mode", 0, (optional<string>))
G_END(ExceptionFilterOptions)
G_BEGIN(SetExceptionBreakpointsRequest, Request, "setExceptionBreakpoints", SetExceptionBreakpointsResponse)
  F(exceptionOptions, "exceptionOptions", 0, (optional<array<ExceptionOptions>>))
  F(filterOptions, "filterOptions", 0, (optional<array<ExceptionFilterOptions>>))
  F(filters, "filters", 1, (array<string>))
G_END(SetExceptionBreakpointsRequest)
G_BEGIN(SetExpressionResponse, Response, "", NoResponse)
  F(indexedVariables, "indexedVariables", 0, (optional<integer>))
  F(memoryReference, "memoryReference", 0, (optional<string>))
  F(namedVariables, "namedVariables", 0, (optional<integer>))
  F(presentationHint, "presentationHint", 0, (optional<VariablePresentationHint>))
  F(type, "type", 0, (optional<string>))
  F(value, "value", 1, (string))
  F(variablesReference, "variablesReference", 0, (optional<integer>))
G_END(SetExpressionResponse)
G_BEGIN(SetExpressionRequest, Request, "setExpression", SetExpressionResponse)
  F(expression, "expression", 1, (string))
  F(format, "format", 0, (optional<ValueFormat>))
  F(frameId, "frameId", 0, (optional<integer>))
  F(value, "value", 1, (string))
G_END(SetExpressionRequest)
G_BEGIN(SetFunctionBreakpointsResponse, Response, "", NoResponse)
  F(breakpoints, "breakpoints", 1, (array<Breakpoint>))
G_END(SetFunctionBreakpointsResponse)
G_BEGIN(FunctionBreakpoint, Type, "", NoResponse)
  F(condition, "condition", 0, (optional<string>))
  F(hitCondition, "hitCondition", 0, (optional<string>))
  F(name, "name", 1, (string))
G_END(FunctionBreakpoint)
G_BEGIN(SetFunctionBreakpointsRequest, Request, "setFunctionBreakpoints", SetFunctionBreakpointsResponse)
  F(breakpoints, "breakpoints", 1, (array<FunctionBreakpoint>))
G_END(SetFunctionBreakpointsRequest)
G_BEGIN(SetInstructionBreakpointsResponse, Response, "", NoResponse)
  F(breakpoints, "breakpoints", 1, (array<Breakpoint>))
G_END(SetInstructionBreakpointsResponse)
G_BEGIN(InstructionBreakpoint, Type, "", NoResponse)
  F(condition, "condition", 0, (optional<string>))
  F(hitCondition, "hitCondition", 0, (optional<string>))
  F(instructionReference, "instructionReference", 1, (string))
  F(mode, "mode", 0, (optional<string>))
  F(offset, "offset", 0, (optional<integer>))
G_END(InstructionBreakpoint)
G_BEGIN(SetInstructionBreakpointsRequest, Request, "setInstructionBreakpoints", SetInstructionBreakpointsResponse)
  F(breakpoints, "breakpoints", 1, (array<InstructionBreakpoint>))
G_END(SetInstructionBreakpointsRequest)
G_BEGIN(SetVariableResponse, Response, "", NoResponse)
  F(indexedVariables, "indexedVariables", 0, (optional<integer>))
  F(memoryReference, "memoryReference", 0, (optional<string>))
  F(namedVariables, "namedVariables", 0, (optional<integer>))
  F(type, "type", 0, (optional<string>))
  F(value, "value", 1, (string))
  F(variablesReference, "variablesReference", 0, (optional<integer>))
G_END(SetVariableResponse)
G_BEGIN(SetVariableRequest, Request, "setVariable", SetVariableResponse)
  F(format, "format", 0, (optional<ValueFormat>))
  F(name, "name", 1, (string))
  F(value, "value", 1, (string))
  F(variablesReference, "variablesReference", 1, (integer))
G_END(SetVariableRequest)
G_BEGIN(SourceResponse, Response, "", NoResponse)
  F(content, "content", 1, (string))
  F(mimeType, "mimeType", 0, (optional<string>))
G_END(SourceResponse)
G_BEGIN(SourceRequest, Request, "source", SourceResponse)
  F(source, "source", 0, (optional<Source>))
  F(sourceReference, "sourceReference", 1, (integer))
G_END(SourceRequest)
G_BEGIN(StackFrame, Type, "", NoResponse)
  F(canRestart, "canRestart", 0, (optional<boolean>))
  F(column, "column", 1, (integer))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(id, "id", 1, (integer))
  F(instructionPointerReference, "instructionPointerReference", 0, (optional<string>))
  F(line, "line", 1, (integer))
  F(moduleId, "moduleId", 0, (optional<variant<integer, string>>))
  F(name, "name", 1, (string))
  F(presentationHint, "presentationHint", 0, (optional<string>))
  F(source, "source", 0, (optional<Source>))
G_END(StackFrame)
G_BEGIN(StackTraceResponse, Response, "", NoResponse)
  F(stackFrames, "stackFrames", 1, (array<StackFrame>))
  F(totalFrames, "totalFrames", 0, (optional<integer>))
G_END(StackTraceResponse)
G_BEGIN(StackFrameFormat, ValueFormat, "", NoResponse)
  F(includeAll, "includeAll", 0, (optional<boolean>))
  F(line, "line", 0, (optional<boolean>))
  F(module, "module", 0, (optional<boolean>))
  F(parameterNames, "parameterNames", 0, (optional<boolean>))
  F(parameterTypes, "parameterTypes", 0, (optional<boolean>))
  F(parameterValues, "parameterValues", 0, (optional<boolean>))
  F(parameters, "parameters", 0, (optional<boolean>))
G_END(StackFrameFormat)
G_BEGIN(StackTraceRequest, Request, "stackTrace", StackTraceResponse)
  F(format, "format", 0, (optional<StackFrameFormat>))
  F(levels, "levels", 0, (optional<integer>))
  F(startFrame, "startFrame", 0, (optional<integer>))
  F(threadId, "threadId", 1, (integer))
G_END(StackTraceRequest)
G_BEGIN(StartDebuggingResponse, Response, "", NoResponse)
G_END(StartDebuggingResponse)
G_BEGIN(StartDebuggingRequest, Request, "startDebugging", StartDebuggingResponse)
  F(configuration, "configuration", 1, (object))
  F(request, "request", 1, (string))
G_END(StartDebuggingRequest)
G_BEGIN(StepBackResponse, Response, "", NoResponse)
G_END(StepBackResponse)
G_BEGIN(StepBackRequest, Request, "stepBack", StepBackResponse)
  F(granularity, "granularity", 0, (optional<SteppingGranularity>))
  F(singleThread, "singleThread", 0, (optional<boolean>))
  F(threadId, "threadId", 1, (integer))
G_END(StepBackRequest)
G_BEGIN(StepInResponse, Response, "", NoResponse)
G_END(StepInResponse)
G_BEGIN(StepInRequest, Request, "stepIn", StepInResponse)
  F(granularity, "granularity", 0, (optional<SteppingGranularity>))
  F(singleThread, "singleThread", 0, (optional<boolean>))
  F(targetId, "targetId", 0, (optional<integer>))
  F(threadId, "threadId", 1, (integer))
G_END(StepInRequest)
G_BEGIN(StepInTarget, Type, "", NoResponse)
  F(column, "column", 0, (optional<integer>))
  F(endColumn, "endColumn", 0, (optional<integer>))
  F(endLine, "endLine", 0, (optional<integer>))
  F(id, "id", 1, (integer))
  F(label, "label", 1, (string))
  F(line, "line", 0, (optional<integer>))
G_END(StepInTarget)
G_BEGIN(StepInTargetsResponse, Response, "", NoResponse)
  F(targets, "targets", 1, (array<StepInTarget>))
G_END(StepInTargetsResponse)
G_BEGIN(StepInTargetsRequest, Request, "stepInTargets", StepInTargetsResponse)
  F(frameId, "frameId", 1, (integer))
G_END(StepInTargetsRequest)
G_BEGIN(StepOutResponse, Response, "", NoResponse)
G_END(StepOutResponse)
G_BEGIN(StepOutRequest, Request, "stepOut", StepOutResponse)
  F(granularity, "granularity", 0, (optional<SteppingGranularity>))
  F(singleThread, "singleThread", 0, (optional<boolean>))
  F(threadId, "threadId", 1, (integer))
G_END(StepOutRequest)
G_BEGIN(StoppedEvent, Event, "stopped", NoResponse)
  F(allThreadsStopped, "allThreadsStopped", 0, (optional<boolean>))
  F(description, "description", 0, (optional<string>))
  F(hitBreakpointIds, "hitBreakpointIds", 0, (optional<array<integer>>))
  F(preserveFocusHint, "preserveFocusHint", 0, (optional<boolean>))
  F(reason, "reason", 1, (string))
  F(text, "text", 0, (optional<string>))
  F(threadId, "threadId", 0, (optional<integer>))
G_END(StoppedEvent)
G_BEGIN(TerminateResponse, Response, "", NoResponse)
G_END(TerminateResponse)
G_BEGIN(TerminateRequest, Request, "terminate", TerminateResponse)
  F(restart, "restart", 0, (optional<boolean>))
G_END(TerminateRequest)
G_BEGIN(TerminateThreadsResponse, Response, "", NoResponse)
G_END(TerminateThreadsResponse)
G_BEGIN(TerminateThreadsRequest, Request, "terminateThreads", TerminateThreadsResponse)
  F(threadIds, "threadIds", 0, (optional<array<integer>>))
G_END(TerminateThreadsRequest)
G_BEGIN(TerminatedEvent, Event, "terminated", NoResponse)
  F(restart, "restart", 0, (optional<variant<array<any>, boolean, integer, null, number, object, string>>))
G_END(TerminatedEvent)
G_BEGIN(ThreadEvent, Event, "thread", NoResponse)
  F(reason, "reason", 1, (string))
  F(threadId, "threadId", 1, (integer))
G_END(ThreadEvent)
G_BEGIN(Thread, Type, "", NoResponse)
  F(id, "id", 1, (integer))
  F(name, "name", 1, (string))
G_END(Thread)
G_BEGIN(ThreadsResponse, Response, "", NoResponse)
  F(threads, "threads", 1, (array<Thread>))
G_END(ThreadsResponse)
G_BEGIN(ThreadsRequest, Request, "threads", ThreadsResponse)
G_END(ThreadsRequest)
G_BEGIN(Variable, Type, "", NoResponse)
  F(evaluateName, "evaluateName", 0, (optional<string>))
  F(indexedVariables, "indexedVariables", 0, (optional<integer>))
  F(memoryReference, "memoryReference", 0, (optional<string>))
  F(name, "name", 1, (string))
  F(namedVariables, "namedVariables", 0, (optional<integer>))
  F(presentationHint, "presentationHint", 0, (optional<VariablePresentationHint>))
  F(type, "type", 0, (optional<string>))
  F(value, "value", 1, (string))
  F(variablesReference, "variablesReference", 1, (integer))
G_END(Variable)
G_BEGIN(VariablesResponse, Response, "", NoResponse)
  F(variables, "variables", 1, (array<Variable>))
G_END(VariablesResponse)
G_BEGIN(VariablesRequest, Request, "variables", VariablesResponse)
  F(count, "count", 0, (optional<integer>))
  F(filter, "filter", 0, (optional<string>))
  F(format, "format", 0, (optional<ValueFormat>))
  F(start, "start", 0, (optional<integer>))
  F(variablesReference, "variablesReference", 1, (integer))
G_END(VariablesRequest)
G_BEGIN(WriteMemoryResponse, Response, "", NoResponse)
  F(bytesWritten, "bytesWritten", 0, (optional<integer>))
  F(offset, "offset", 0, (optional<integer>))
G_END(WriteMemoryResponse)
G_BEGIN(WriteMemoryRequest, Request, "writeMemory", WriteMemoryResponse)
  F(allowPartial, "allowPartial", 0, (optional<boolean>))
  F(data, "data", 1, (string))
  F(memoryReference, "memoryReference", 1, (string))
  F(offset, "offset", 0, (optional<integer>))
G_END(WriteMemoryRequest)
