"""The names of the Debug Adapter Protocol (1.70), written from its specification.

A key maps to the name of the protocol's object it holds, single or in a list,
or to None for any other value.
"""

from __future__ import annotations


def _keys(plain: str, **objects: str) -> dict[str, str | None]:
    return {**{k: None for k in plain.split()}, **objects}


#: Objects.
TYPES: dict[str, dict[str, str | None]] = {
    "Breakpoint": _keys("id verified message line column endLine endColumn instructionReference offset reason", source="Source"),
    "Capabilities": _keys(
        "supportsConfigurationDoneRequest supportsFunctionBreakpoints supportsConditionalBreakpoints supportsHitConditionalBreakpoints "
        "supportsEvaluateForHovers supportsStepBack supportsSetVariable supportsRestartFrame supportsGotoTargetsRequest "
        "supportsStepInTargetsRequest supportsCompletionsRequest completionTriggerCharacters supportsModulesRequest "
        "supportsRestartRequest supportsExceptionOptions supportsValueFormattingOptions supportsExceptionInfoRequest "
        "supportTerminateDebuggee supportSuspendDebuggee supportsDelayedStackTraceLoading supportsLoadedSourcesRequest "
        "supportsLogPoints supportsTerminateThreadsRequest supportsSetExpression supportsTerminateRequest supportsDataBreakpoints "
        "supportsReadMemoryRequest supportsWriteMemoryRequest supportsDisassembleRequest supportsCancelRequest "
        "supportsBreakpointLocationsRequest supportsClipboardContext supportsSteppingGranularity supportsInstructionBreakpoints "
        "supportsExceptionFilterOptions supportsSingleThreadExecutionRequests supportsDataBreakpointBytes supportsANSIStyling",
        exceptionBreakpointFilters="ExceptionBreakpointsFilter",
        additionalModuleColumns="ColumnDescriptor",
        supportedChecksumAlgorithms="ChecksumAlgorithm",
        breakpointModes="BreakpointMode",
    ),
    "Checksum": _keys("algorithm checksum"),
    "ExceptionBreakpointsFilter": _keys("filter label description default supportsCondition conditionDescription"),
    "ExceptionFilterOptions": _keys("filterId condition mode"),
    "ExceptionOptions": _keys("breakMode", path="ExceptionPathSegment"),
    "ExceptionPathSegment": _keys("negate names"),
    "Message": _keys("id format variables sendTelemetry showUser url urlLabel"),
    "Scope": _keys(
        "name presentationHint variablesReference namedVariables indexedVariables expensive line column endLine endColumn", source="Source"
    ),
    "Source": _keys("name path sourceReference presentationHint origin adapterData", sources="Source", checksums="Checksum"),
    "SourceBreakpoint": _keys("line column condition hitCondition logMessage mode"),
    "FunctionBreakpoint": _keys("name condition hitCondition"),
    "StackFrame": _keys(
        "id name line column endLine endColumn canRestart instructionPointerReference moduleId presentationHint", source="Source"
    ),
    "StackFrameFormat": _keys("parameters parameterTypes parameterNames parameterValues line module includeAll hex"),
    "Thread": _keys("id name"),
    "ValueFormat": _keys("hex"),
    "Variable": _keys(
        "name value type evaluateName variablesReference namedVariables indexedVariables memoryReference declarationLocationReference "
        "valueLocationReference",
        presentationHint="VariablePresentationHint",
    ),
    "VariablePresentationHint": _keys("kind attributes visibility lazy"),
    "Module": _keys("id name path isOptimized isUserCode version symbolStatus symbolFilePath dateTimeStamp addressRange"),
    "StepInTarget": _keys("id label line column endLine endColumn"),
    "GotoTarget": _keys("id label line column endLine endColumn instructionPointerReference"),
    "CompletionItem": _keys("label text sortText detail type start length selectionStart selectionLength"),
    "BreakpointLocation": _keys("line column endLine endColumn"),
}

_STEP = _keys("threadId singleThread granularity")
#: The arguments of each request.
REQUESTS: dict[str, dict[str, str | None]] = {
    "attach": _keys("__restart"),
    "breakpointLocations": _keys("line column endLine endColumn", source="Source"),
    "cancel": _keys("requestId progressId"),
    "completions": _keys("frameId text column line"),
    "configurationDone": {},
    "continue": _keys("threadId singleThread"),
    "disconnect": _keys("restart terminateDebuggee suspendDebuggee"),
    "evaluate": _keys("expression frameId line column context", source="Source", format="ValueFormat"),
    "exceptionInfo": _keys("threadId"),
    "goto": _keys("threadId targetId"),
    "gotoTargets": _keys("line column", source="Source"),
    "initialize": _keys(
        "clientID clientName adapterID locale linesStartAt1 columnsStartAt1 pathFormat supportsVariableType supportsVariablePaging "
        "supportsRunInTerminalRequest supportsMemoryReferences supportsProgressReporting supportsInvalidatedEvent supportsMemoryEvent "
        "supportsArgsCanBeInterpretedByShell supportsStartDebuggingRequest supportsANSIStyling"
    ),
    "launch": _keys("noDebug __restart"),
    "loadedSources": {},
    "modules": _keys("startModule moduleCount"),
    "next": _STEP,
    "pause": _keys("threadId"),
    "restart": _keys("arguments"),
    "restartFrame": _keys("frameId"),
    "reverseContinue": _keys("threadId singleThread"),
    "runInTerminal": _keys("kind title cwd args env argsCanBeInterpretedByShell"),
    "scopes": _keys("frameId"),
    "setBreakpoints": _keys("lines sourceModified", source="Source", breakpoints="SourceBreakpoint"),
    "setExceptionBreakpoints": _keys("filters", filterOptions="ExceptionFilterOptions", exceptionOptions="ExceptionOptions"),
    "setExpression": _keys("expression value frameId", format="ValueFormat"),
    "setFunctionBreakpoints": _keys("", breakpoints="FunctionBreakpoint"),
    "setVariable": _keys("variablesReference name value", format="ValueFormat"),
    "source": _keys("sourceReference", source="Source"),
    "stackTrace": _keys("threadId startFrame levels", format="StackFrameFormat"),
    "stepBack": _STEP,
    "stepIn": {**_STEP, "targetId": None},
    "stepInTargets": _keys("frameId"),
    "stepOut": _STEP,
    "terminate": _keys("restart"),
    "terminateThreads": _keys("threadIds"),
    "threads": {},
    "variables": _keys("variablesReference filter start count", format="ValueFormat"),
}

#: The body of each response.
RESPONSES: dict[str, dict[str, str | None] | str] = {
    **{c: {} for c in REQUESTS},
    "continue": _keys("allThreadsContinued"),
    "completions": _keys("", targets="CompletionItem"),
    "breakpointLocations": _keys("", breakpoints="BreakpointLocation"),
    "evaluate": _keys(
        "result type variablesReference namedVariables indexedVariables memoryReference valueLocationReference",
        presentationHint="VariablePresentationHint",
    ),
    "exceptionInfo": _keys("exceptionId description breakMode details"),
    "gotoTargets": _keys("", targets="GotoTarget"),
    "initialize": "Capabilities",
    "loadedSources": _keys("", sources="Source"),
    "modules": _keys("totalModules", modules="Module"),
    "runInTerminal": _keys("processId shellProcessId"),
    "scopes": _keys("", scopes="Scope"),
    "setBreakpoints": _keys("", breakpoints="Breakpoint"),
    "setExceptionBreakpoints": _keys("", breakpoints="Breakpoint"),
    "setExpression": _keys(
        "value type variablesReference namedVariables indexedVariables memoryReference valueLocationReference",
        presentationHint="VariablePresentationHint",
    ),
    "setFunctionBreakpoints": _keys("", breakpoints="Breakpoint"),
    "setVariable": _keys("value type variablesReference namedVariables indexedVariables memoryReference valueLocationReference"),
    "source": _keys("content mimeType"),
    "stackTrace": _keys("totalFrames", stackFrames="StackFrame"),
    "stepInTargets": _keys("", targets="StepInTarget"),
    "threads": _keys("", threads="Thread"),
    "variables": _keys("", variables="Variable"),
}
ERROR_BODY = _keys("", error="Message")

#: The body of each event.
EVENTS: dict[str, dict[str, str | None]] = {
    "breakpoint": _keys("reason", breakpoint="Breakpoint"),
    "capabilities": _keys("", capabilities="Capabilities"),
    "continued": _keys("threadId allThreadsContinued"),
    "exited": _keys("exitCode"),
    "initialized": {},
    "invalidated": _keys("areas threadId stackFrameId"),
    "loadedSource": _keys("reason", source="Source"),
    "memory": _keys("memoryReference offset count"),
    "module": _keys("reason", module="Module"),
    "output": _keys("category output group variablesReference line column data locationReference", source="Source"),
    "process": _keys("name systemProcessId isLocalProcess startMethod pointerSize"),
    "progressStart": _keys("progressId title requestId cancellable message percentage"),
    "progressUpdate": _keys("progressId message percentage"),
    "progressEnd": _keys("progressId message"),
    "stopped": _keys("description threadId preserveFocusHint text allThreadsStopped hitBreakpointIds", reason="StoppedReason"),
    "terminated": _keys("restart"),
    "thread": _keys("reason threadId"),
}

STOPPED_REASONS = {
    "step", "breakpoint", "exception", "pause", "entry", "goto", "function breakpoint", "data breakpoint", "instruction breakpoint",
}
MESSAGE_TYPES = {"request", "response", "event"}

#: The keys outside of arguments and body: key -> the fields that may be read and written there.
HEAD = {"seq", "type"}
REQUEST_HEAD = HEAD | {"command"}
RESPONSE_HEAD = HEAD | {"request_seq", "success", "command", "message"}
EVENT_HEAD = HEAD | {"event"}
