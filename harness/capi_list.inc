// generated by tools/gen_capi.py: name, result, arguments
API(helicsAbort, 'v', "Is", "")
API(helicsAppDestroy, 'v', "a", "")
API(helicsAppEnabled, 'B', "", "")
API(helicsAppFinalize, 'v', "aE", "")
API(helicsAppFree, 'v', "a", "")
API(helicsAppGetFederate, 'H', "aE", "f")
API(helicsAppInitialize, 'v', "aE", "")
API(helicsAppIsActive, 'B', "a", "")
API(helicsAppLoadFile, 'v', "asE", "")
API(helicsAppRun, 'v', "aE", "")
API(helicsAppRunTo, 'v', "aRE", "")
API(helicsBrokerAddAlias, 'v', "bssE", "")
API(helicsBrokerAddDestinationFilterToEndpoint, 'v', "bssE", "")
API(helicsBrokerAddSourceFilterToEndpoint, 'v', "bssE", "")
API(helicsBrokerClearTimeBarrier, 'v', "b", "")
API(helicsBrokerClone, 'H', "bE", "b")
API(helicsBrokerDataLink, 'v', "bssE", "")
API(helicsBrokerDestroy, 'v', "b", "")
API(helicsBrokerDisconnect, 'v', "bE", "")
API(helicsBrokerFree, 'v', "b", "")
API(helicsBrokerGetAddress, 's', "b", "")
API(helicsBrokerGetIdentifier, 's', "b", "")
API(helicsBrokerGlobalError, 'v', "bIsE", "")
API(helicsBrokerIsConnected, 'B', "b", "")
API(helicsBrokerIsOpenToNewFederates, 'B', "b", "")
API(helicsBrokerIsRoot, 'B', "b", "")
API(helicsBrokerIsValid, 'B', "b", "")
API(helicsBrokerMakeConnections, 'v', "bsE", "")
API(helicsBrokerSendCommand, 'v', "bssE", "")
API(helicsBrokerSendOrderedCommand, 'v', "bssE", "")
API(helicsBrokerSetGlobal, 'v', "bssE", "")
API(helicsBrokerSetLogFile, 'v', "bsE", "")
API(helicsBrokerSetLoggingCallback, 'v', "bCuE", "")
API(helicsBrokerSetTimeBarrier, 'v', "bRE", "")
API(helicsBrokerWaitForDisconnect, 'B', "bIE", "")
API(helicsCallbackFederateInitializeCallback, 'v', "fCuE", "")
API(helicsCallbackFederateNextTimeCallback, 'v', "fCuE", "")
API(helicsCallbackFederateNextTimeIterativeCallback, 'v', "fCuE", "")
API(helicsCleanupLibrary, 'v', "", "")
API(helicsClearSignalHandler, 'v', "", "")
API(helicsCloseLibrary, 'v', "", "")
API(helicsCoreAddAlias, 'v', "cssE", "")
API(helicsCoreAddDestinationFilterToEndpoint, 'v', "cssE", "")
API(helicsCoreAddSourceFilterToEndpoint, 'v', "cssE", "")
API(helicsCoreClone, 'H', "cE", "c")
API(helicsCoreConnect, 'B', "cE", "")
API(helicsCoreDataLink, 'v', "cssE", "")
API(helicsCoreDestroy, 'v', "c", "")
API(helicsCoreDisconnect, 'v', "cE", "")
API(helicsCoreFree, 'v', "c", "")
API(helicsCoreGetAddress, 's', "c", "")
API(helicsCoreGetIdentifier, 's', "c", "")
API(helicsCoreGlobalError, 'v', "cIsE", "")
API(helicsCoreIsConnected, 'B', "c", "")
API(helicsCoreIsOpenToNewFederates, 'B', "c", "")
API(helicsCoreIsValid, 'B', "c", "")
API(helicsCoreMakeConnections, 'v', "csE", "")
API(helicsCoreRegisterCloningFilter, 'H', "csE", "F")
API(helicsCoreRegisterFilter, 'H', "cIsE", "F")
API(helicsCoreRegisterTranslator, 'H', "cIsE", "t")
API(helicsCoreSendCommand, 'v', "cssE", "")
API(helicsCoreSendOrderedCommand, 'v', "cssE", "")
API(helicsCoreSetGlobal, 'v', "cssE", "")
API(helicsCoreSetLogFile, 'v', "csE", "")
API(helicsCoreSetLoggingCallback, 'v', "cCuE", "")
API(helicsCoreSetReadyToInit, 'v', "cE", "")
API(helicsCoreWaitForDisconnect, 'B', "cIE", "")
API(helicsCreateApp, 'H', "sssnE", "a")
API(helicsCreateBroker, 'H', "sssE", "b")
API(helicsCreateBrokerFromArgs, 'H', "ssLGE", "b")
API(helicsCreateCallbackFederate, 'H', "snE", "f")
API(helicsCreateCallbackFederateFromConfig, 'H', "sE", "f")
API(helicsCreateCombinationFederate, 'H', "snE", "f")
API(helicsCreateCombinationFederateFromConfig, 'H', "sE", "f")
API(helicsCreateCore, 'H', "sssE", "c")
API(helicsCreateCoreFromArgs, 'H', "ssLGE", "c")
API(helicsCreateDataBuffer, 'H', "L", "d")
API(helicsCreateFederateInfo, 'H', "", "n")
API(helicsCreateMessageFederate, 'H', "snE", "f")
API(helicsCreateMessageFederateFromConfig, 'H', "sE", "f")
API(helicsCreateQuery, 'H', "ss", "q")
API(helicsCreateValueFederate, 'H', "snE", "f")
API(helicsCreateValueFederateFromConfig, 'H', "sE", "f")
API(helicsDataBufferCapacity, 'I', "d", "")
API(helicsDataBufferClone, 'H', "d", "d")
API(helicsDataBufferConvertToType, 'B', "dI", "")
API(helicsDataBufferData, 'P', "d", "")
API(helicsDataBufferFillFromBoolean, 'I', "dI", "")
API(helicsDataBufferFillFromChar, 'I', "dI", "")
API(helicsDataBufferFillFromComplex, 'I', "dRR", "")
API(helicsDataBufferFillFromComplexObject, 'I', "dZ", "")
API(helicsDataBufferFillFromComplexVector, 'I', "dDL", "")
API(helicsDataBufferFillFromDouble, 'I', "dR", "")
API(helicsDataBufferFillFromInteger, 'I', "dI", "")
API(helicsDataBufferFillFromNamedPoint, 'I', "dsR", "")
API(helicsDataBufferFillFromRawString, 'I', "dsL", "")
API(helicsDataBufferFillFromString, 'I', "ds", "")
API(helicsDataBufferFillFromTime, 'I', "dR", "")
API(helicsDataBufferFillFromVector, 'I', "dDL", "")
API(helicsDataBufferFree, 'v', "d", "")
API(helicsDataBufferIsValid, 'B', "d", "")
API(helicsDataBufferReserve, 'B', "dL", "")
API(helicsDataBufferSize, 'I', "d", "")
API(helicsDataBufferStringSize, 'I', "d", "")
API(helicsDataBufferToBoolean, 'B', "d", "")
API(helicsDataBufferToChar, 'I', "d", "")
API(helicsDataBufferToComplex, 'v', "drr", "")
API(helicsDataBufferToComplexObject, 'Z', "d", "")
API(helicsDataBufferToComplexVector, 'v', "dVLo", "")
API(helicsDataBufferToDouble, 'R', "d", "")
API(helicsDataBufferToInteger, 'I', "d", "")
API(helicsDataBufferToNamedPoint, 'v', "dXLor", "")
API(helicsDataBufferToRawString, 'v', "dXLo", "")
API(helicsDataBufferToString, 'v', "dXLo", "")
API(helicsDataBufferToTime, 'T', "d", "")
API(helicsDataBufferToVector, 'v', "dVLo", "")
API(helicsDataBufferType, 'I', "d", "")
API(helicsDataBufferVectorSize, 'I', "d", "")
API(helicsEndpointAddDestinationFilter, 'v', "esE", "")
API(helicsEndpointAddDestinationTarget, 'v', "esE", "")
API(helicsEndpointAddSourceFilter, 'v', "esE", "")
API(helicsEndpointAddSourceTarget, 'v', "esE", "")
API(helicsEndpointClearMessages, 'v', "e", "")
API(helicsEndpointCreateMessage, 'H', "eE", "m")
API(helicsEndpointGetDefaultDestination, 's', "e", "")
API(helicsEndpointGetInfo, 's', "e", "")
API(helicsEndpointGetMessage, 'H', "e", "m")
API(helicsEndpointGetName, 's', "e", "")
API(helicsEndpointGetOption, 'I', "eI", "")
API(helicsEndpointGetTag, 's', "es", "")
API(helicsEndpointGetType, 's', "e", "")
API(helicsEndpointHasMessage, 'B', "e", "")
API(helicsEndpointIsValid, 'B', "e", "")
API(helicsEndpointPendingMessageCount, 'I', "e", "")
API(helicsEndpointRemoveTarget, 'v', "esE", "")
API(helicsEndpointSendBytes, 'v', "eDLE", "")
API(helicsEndpointSendBytesAt, 'v', "eDLRE", "")
API(helicsEndpointSendBytesTo, 'v', "eDLsE", "")
API(helicsEndpointSendBytesToAt, 'v', "eDLsRE", "")
API(helicsEndpointSendMessage, 'v', "emE", "")
API(helicsEndpointSendMessageZeroCopy, 'v', "emE", "")
API(helicsEndpointSendString, 'v', "esE", "")
API(helicsEndpointSendStringAt, 'v', "esRE", "")
API(helicsEndpointSendStringTo, 'v', "essE", "")
API(helicsEndpointSendStringToAt, 'v', "essRE", "")
API(helicsEndpointSetDefaultDestination, 'v', "esE", "")
API(helicsEndpointSetInfo, 'v', "esE", "")
API(helicsEndpointSetOption, 'v', "eIIE", "")
API(helicsEndpointSetTag, 'v', "essE", "")
API(helicsEndpointSubscribe, 'v', "esE", "")
API(helicsErrorClear, 'v', "E", "")
API(helicsErrorInitialize, 'I', "", "")
API(helicsFederateAddAlias, 'v', "fssE", "")
API(helicsFederateAddDependency, 'v', "fsE", "")
API(helicsFederateClearMessages, 'v', "f", "")
API(helicsFederateClearUpdates, 'v', "f", "")
API(helicsFederateClone, 'H', "fE", "f")
API(helicsFederateCosimulationTerminationCallback, 'v', "fCuE", "")
API(helicsFederateCreateMessage, 'H', "fE", "m")
API(helicsFederateDestroy, 'v', "f", "")
API(helicsFederateDisconnect, 'v', "fE", "")
API(helicsFederateDisconnectAsync, 'v', "fE", "")
API(helicsFederateDisconnectComplete, 'v', "fE", "")
API(helicsFederateEnterExecutingMode, 'v', "fE", "")
API(helicsFederateEnterExecutingModeAsync, 'v', "fE", "")
API(helicsFederateEnterExecutingModeComplete, 'v', "fE", "")
API(helicsFederateEnterExecutingModeIterative, 'I', "fIE", "")
API(helicsFederateEnterExecutingModeIterativeAsync, 'v', "fIE", "")
API(helicsFederateEnterExecutingModeIterativeComplete, 'I', "fE", "")
API(helicsFederateEnterInitializingMode, 'v', "fE", "")
API(helicsFederateEnterInitializingModeAsync, 'v', "fE", "")
API(helicsFederateEnterInitializingModeComplete, 'v', "fE", "")
API(helicsFederateEnterInitializingModeIterative, 'v', "fE", "")
API(helicsFederateEnterInitializingModeIterativeAsync, 'v', "fE", "")
API(helicsFederateEnterInitializingModeIterativeComplete, 'v', "fE", "")
API(helicsFederateErrorHandlerCallback, 'v', "fCuE", "")
API(helicsFederateExecutingEntryCallback, 'v', "fCuE", "")
API(helicsFederateFinalize, 'v', "fE", "")
API(helicsFederateFinalizeAsync, 'v', "fE", "")
API(helicsFederateFinalizeComplete, 'v', "fE", "")
API(helicsFederateFree, 'v', "f", "")
API(helicsFederateGetCommand, 's', "fE", "")
API(helicsFederateGetCommandSource, 's', "fE", "")
API(helicsFederateGetCore, 'H', "fE", "c")
API(helicsFederateGetCurrentTime, 'T', "fE", "")
API(helicsFederateGetEndpoint, 'H', "fsE", "e")
API(helicsFederateGetEndpointByIndex, 'H', "fIE", "e")
API(helicsFederateGetEndpointCount, 'I', "f", "")
API(helicsFederateGetFilter, 'H', "fsE", "F")
API(helicsFederateGetFilterByIndex, 'H', "fIE", "F")
API(helicsFederateGetFilterCount, 'I', "f", "")
API(helicsFederateGetFlagOption, 'B', "fIE", "")
API(helicsFederateGetInput, 'H', "fsE", "i")
API(helicsFederateGetInputByIndex, 'H', "fIE", "i")
API(helicsFederateGetInputByTarget, 'H', "fsE", "i")
API(helicsFederateGetInputCount, 'I', "f", "")
API(helicsFederateGetIntegerProperty, 'I', "fIE", "")
API(helicsFederateGetMessage, 'H', "f", "m")
API(helicsFederateGetName, 's', "f", "")
API(helicsFederateGetPublication, 'H', "fsE", "p")
API(helicsFederateGetPublicationByIndex, 'H', "fIE", "p")
API(helicsFederateGetPublicationCount, 'I', "f", "")
API(helicsFederateGetState, 'I', "fE", "")
API(helicsFederateGetSubscription, 'H', "fsE", "i")
API(helicsFederateGetTag, 's', "fsE", "")
API(helicsFederateGetTimeProperty, 'T', "fIE", "")
API(helicsFederateGetTranslator, 'H', "fsE", "t")
API(helicsFederateGetTranslatorByIndex, 'H', "fIE", "t")
API(helicsFederateGetTranslatorCount, 'I', "f", "")
API(helicsFederateGlobalError, 'v', "fIsE", "")
API(helicsFederateHasMessage, 'B', "f", "")
API(helicsFederateInfoClone, 'H', "nE", "n")
API(helicsFederateInfoFree, 'v', "n", "")
API(helicsFederateInfoLoadFromArgs, 'v', "nLGE", "")
API(helicsFederateInfoLoadFromString, 'v', "nsE", "")
API(helicsFederateInfoSetBroker, 'v', "nsE", "")
API(helicsFederateInfoSetBrokerInitString, 'v', "nsE", "")
API(helicsFederateInfoSetBrokerKey, 'v', "nsE", "")
API(helicsFederateInfoSetBrokerPort, 'v', "nIE", "")
API(helicsFederateInfoSetCoreInitString, 'v', "nsE", "")
API(helicsFederateInfoSetCoreName, 'v', "nsE", "")
API(helicsFederateInfoSetCoreType, 'v', "nIE", "")
API(helicsFederateInfoSetCoreTypeFromString, 'v', "nsE", "")
API(helicsFederateInfoSetFlagOption, 'v', "nIIE", "")
API(helicsFederateInfoSetIntegerProperty, 'v', "nIIE", "")
API(helicsFederateInfoSetLocalPort, 'v', "nsE", "")
API(helicsFederateInfoSetSeparator, 'v', "nIE", "")
API(helicsFederateInfoSetTimeProperty, 'v', "nIRE", "")
API(helicsFederateInitializingEntryCallback, 'v', "fCuE", "")
API(helicsFederateIsAsyncOperationCompleted, 'B', "fE", "")
API(helicsFederateIsProtected, 'B', "sE", "")
API(helicsFederateIsValid, 'B', "f", "")
API(helicsFederateLocalError, 'v', "fIsE", "")
API(helicsFederateLogDebugMessage, 'v', "fsE", "")
API(helicsFederateLogErrorMessage, 'v', "fsE", "")
API(helicsFederateLogInfoMessage, 'v', "fsE", "")
API(helicsFederateLogLevelMessage, 'v', "fIsE", "")
API(helicsFederateLogWarningMessage, 'v', "fsE", "")
API(helicsFederatePendingMessageCount, 'I', "f", "")
API(helicsFederateProcessCommunications, 'v', "fRE", "")
API(helicsFederateProtect, 'v', "sE", "")
API(helicsFederatePublishJSON, 'v', "fsE", "")
API(helicsFederateRegisterCloningFilter, 'H', "fsE", "F")
API(helicsFederateRegisterEndpoint, 'H', "fssE", "e")
API(helicsFederateRegisterFilter, 'H', "fIsE", "F")
API(helicsFederateRegisterFromPublicationJSON, 'v', "fsE", "")
API(helicsFederateRegisterGlobalCloningFilter, 'H', "fsE", "F")
API(helicsFederateRegisterGlobalEndpoint, 'H', "fssE", "e")
API(helicsFederateRegisterGlobalFilter, 'H', "fIsE", "F")
API(helicsFederateRegisterGlobalInput, 'H', "fsIsE", "i")
API(helicsFederateRegisterGlobalPublication, 'H', "fsIsE", "p")
API(helicsFederateRegisterGlobalTargetedEndpoint, 'H', "fssE", "e")
API(helicsFederateRegisterGlobalTranslator, 'H', "fIsE", "t")
API(helicsFederateRegisterGlobalTypeInput, 'H', "fsssE", "i")
API(helicsFederateRegisterGlobalTypePublication, 'H', "fsssE", "p")
API(helicsFederateRegisterInput, 'H', "fsIsE", "i")
API(helicsFederateRegisterInterfaces, 'v', "fsE", "")
API(helicsFederateRegisterPublication, 'H', "fsIsE", "p")
API(helicsFederateRegisterSubscription, 'H', "fssE", "i")
API(helicsFederateRegisterTargetedEndpoint, 'H', "fssE", "e")
API(helicsFederateRegisterTranslator, 'H', "fIsE", "t")
API(helicsFederateRegisterTypeInput, 'H', "fsssE", "i")
API(helicsFederateRegisterTypePublication, 'H', "fsssE", "p")
API(helicsFederateRequestNextStep, 'T', "fE", "")
API(helicsFederateRequestTime, 'T', "fRE", "")
API(helicsFederateRequestTimeAdvance, 'T', "fRE", "")
API(helicsFederateRequestTimeAsync, 'v', "fRE", "")
API(helicsFederateRequestTimeComplete, 'T', "fE", "")
API(helicsFederateRequestTimeIterative, 'T', "fRI?E", "")
API(helicsFederateRequestTimeIterativeAsync, 'v', "fRIE", "")
API(helicsFederateRequestTimeIterativeComplete, 'T', "f?E", "")
API(helicsFederateSendCommand, 'v', "fssE", "")
API(helicsFederateSetFlagOption, 'v', "fIIE", "")
API(helicsFederateSetGlobal, 'v', "fssE", "")
API(helicsFederateSetIntegerProperty, 'v', "fIIE", "")
API(helicsFederateSetLogFile, 'v', "fsE", "")
API(helicsFederateSetLoggingCallback, 'v', "fCuE", "")
API(helicsFederateSetQueryCallback, 'v', "fCuE", "")
API(helicsFederateSetSeparator, 'v', "fIE", "")
API(helicsFederateSetStateChangeCallback, 'v', "fCuE", "")
API(helicsFederateSetTag, 'v', "fssE", "")
API(helicsFederateSetTimeProperty, 'v', "fIRE", "")
API(helicsFederateSetTimeRequestEntryCallback, 'v', "fCuE", "")
API(helicsFederateSetTimeRequestReturnCallback, 'v', "fCuE", "")
API(helicsFederateSetTimeUpdateCallback, 'v', "fCuE", "")
API(helicsFederateUnProtect, 'v', "sE", "")
API(helicsFederateWaitCommand, 's', "fE", "")
API(helicsFilterAddDeliveryEndpoint, 'v', "FsE", "")
API(helicsFilterAddDestinationTarget, 'v', "FsE", "")
API(helicsFilterAddSourceTarget, 'v', "FsE", "")
API(helicsFilterGetInfo, 's', "F", "")
API(helicsFilterGetName, 's', "F", "")
API(helicsFilterGetOption, 'I', "FI", "")
API(helicsFilterGetPropertyDouble, 'R', "Fs", "")
API(helicsFilterGetPropertyString, 's', "Fs", "")
API(helicsFilterGetTag, 's', "Fs", "")
API(helicsFilterIsValid, 'B', "F", "")
API(helicsFilterRemoveDeliveryEndpoint, 'v', "FsE", "")
API(helicsFilterRemoveTarget, 'v', "FsE", "")
API(helicsFilterSet, 'v', "FsRE", "")
API(helicsFilterSetCustomCallback, 'v', "FCuE", "")
API(helicsFilterSetInfo, 'v', "FsE", "")
API(helicsFilterSetOption, 'v', "FIIE", "")
API(helicsFilterSetString, 'v', "FssE", "")
API(helicsFilterSetTag, 'v', "FssE", "")
API(helicsGetBuildFlags, 's', "", "")
API(helicsGetCompilerVersion, 's', "", "")
API(helicsGetDataType, 'I', "s", "")
API(helicsGetFederateByName, 'H', "sE", "f")
API(helicsGetFlagIndex, 'I', "s", "")
API(helicsGetOptionIndex, 'I', "s", "")
API(helicsGetOptionValue, 'I', "s", "")
API(helicsGetPropertyIndex, 'I', "s", "")
API(helicsGetSystemInfo, 's', "", "")
API(helicsGetVersion, 's', "", "")
API(helicsInputAddTarget, 'v', "isE", "")
API(helicsInputClearUpdate, 'v', "i", "")
API(helicsInputGetBoolean, 'B', "iE", "")
API(helicsInputGetByteCount, 'I', "i", "")
API(helicsInputGetBytes, 'v', "iXLoE", "")
API(helicsInputGetChar, 'I', "iE", "")
API(helicsInputGetComplex, 'v', "irrE", "")
API(helicsInputGetComplexObject, 'Z', "iE", "")
API(helicsInputGetComplexVector, 'v', "iVLoE", "")
API(helicsInputGetDataBuffer, 'H', "iE", "d")
API(helicsInputGetDouble, 'R', "iE", "")
API(helicsInputGetExtractionUnits, 's', "i", "")
API(helicsInputGetInfo, 's', "i", "")
API(helicsInputGetInjectionUnits, 's', "i", "")
API(helicsInputGetInteger, 'I', "iE", "")
API(helicsInputGetName, 's', "i", "")
API(helicsInputGetNamedPoint, 'v', "iXLorE", "")
API(helicsInputGetOption, 'I', "iI", "")
API(helicsInputGetPublicationDataType, 'I', "i", "")
API(helicsInputGetPublicationType, 's', "i", "")
API(helicsInputGetString, 'v', "iXLoE", "")
API(helicsInputGetStringSize, 'I', "i", "")
API(helicsInputGetTag, 's', "is", "")
API(helicsInputGetTarget, 's', "i", "")
API(helicsInputGetTime, 'T', "iE", "")
API(helicsInputGetType, 's', "i", "")
API(helicsInputGetUnits, 's', "i", "")
API(helicsInputGetVector, 'v', "iVLoE", "")
API(helicsInputGetVectorSize, 'I', "i", "")
API(helicsInputIsUpdated, 'B', "i", "")
API(helicsInputIsValid, 'B', "i", "")
API(helicsInputLastUpdateTime, 'T', "i", "")
API(helicsInputSetDefaultBoolean, 'v', "iIE", "")
API(helicsInputSetDefaultBytes, 'v', "iDLE", "")
API(helicsInputSetDefaultChar, 'v', "iIE", "")
API(helicsInputSetDefaultComplex, 'v', "iRRE", "")
API(helicsInputSetDefaultComplexVector, 'v', "iDLE", "")
API(helicsInputSetDefaultDouble, 'v', "iRE", "")
API(helicsInputSetDefaultInteger, 'v', "iIE", "")
API(helicsInputSetDefaultNamedPoint, 'v', "isRE", "")
API(helicsInputSetDefaultString, 'v', "isE", "")
API(helicsInputSetDefaultTime, 'v', "iRE", "")
API(helicsInputSetDefaultVector, 'v', "iDLE", "")
API(helicsInputSetInfo, 'v', "isE", "")
API(helicsInputSetMinimumChange, 'v', "iRE", "")
API(helicsInputSetOption, 'v', "iIIE", "")
API(helicsInputSetTag, 'v', "issE", "")
API(helicsIsCoreTypeAvailable, 'B', "s", "")
API(helicsLoadSignalHandler, 'v', "", "")
API(helicsLoadSignalHandlerCallback, 'v', "CI", "")
API(helicsLoadSignalHandlerCallbackNoExit, 'v', "CI", "")
API(helicsLoadThreadedSignalHandler, 'v', "", "")
API(helicsMessageAppendData, 'v', "mDLE", "")
API(helicsMessageClear, 'v', "mE", "")
API(helicsMessageClearFlags, 'v', "m", "")
API(helicsMessageClone, 'H', "mE", "m")
API(helicsMessageCopy, 'v', "mmE", "")
API(helicsMessageDataBuffer, 'H', "mE", "d")
API(helicsMessageFree, 'v', "m", "")
API(helicsMessageGetByteCount, 'I', "m", "")
API(helicsMessageGetBytes, 'v', "mXLoE", "")
API(helicsMessageGetBytesPointer, 'P', "m", "")
API(helicsMessageGetDestination, 's', "m", "")
API(helicsMessageGetFlagOption, 'B', "mI", "")
API(helicsMessageGetMessageID, 'I', "m", "")
API(helicsMessageGetOriginalDestination, 's', "m", "")
API(helicsMessageGetOriginalSource, 's', "m", "")
API(helicsMessageGetSource, 's', "m", "")
API(helicsMessageGetString, 's', "m", "")
API(helicsMessageGetTime, 'T', "m", "")
API(helicsMessageIsValid, 'B', "m", "")
API(helicsMessageReserve, 'v', "mLE", "")
API(helicsMessageResize, 'v', "mLE", "")
API(helicsMessageSetData, 'v', "mDLE", "")
API(helicsMessageSetDataBuffer, 'v', "mdE", "")
API(helicsMessageSetDestination, 'v', "msE", "")
API(helicsMessageSetFlagOption, 'v', "mIIE", "")
API(helicsMessageSetMessageID, 'v', "mIE", "")
API(helicsMessageSetOriginalDestination, 'v', "msE", "")
API(helicsMessageSetOriginalSource, 'v', "msE", "")
API(helicsMessageSetSource, 'v', "msE", "")
API(helicsMessageSetString, 'v', "msE", "")
API(helicsMessageSetTime, 'v', "mRE", "")
API(helicsPublicationAddTarget, 'v', "psE", "")
API(helicsPublicationGetInfo, 's', "p", "")
API(helicsPublicationGetName, 's', "p", "")
API(helicsPublicationGetOption, 'I', "pI", "")
API(helicsPublicationGetTag, 's', "ps", "")
API(helicsPublicationGetType, 's', "p", "")
API(helicsPublicationGetUnits, 's', "p", "")
API(helicsPublicationIsValid, 'B', "p", "")
API(helicsPublicationPublishBoolean, 'v', "pIE", "")
API(helicsPublicationPublishBytes, 'v', "pDLE", "")
API(helicsPublicationPublishChar, 'v', "pIE", "")
API(helicsPublicationPublishComplex, 'v', "pRRE", "")
API(helicsPublicationPublishComplexVector, 'v', "pDLE", "")
API(helicsPublicationPublishDataBuffer, 'v', "pdE", "")
API(helicsPublicationPublishDouble, 'v', "pRE", "")
API(helicsPublicationPublishInteger, 'v', "pIE", "")
API(helicsPublicationPublishNamedPoint, 'v', "psRE", "")
API(helicsPublicationPublishString, 'v', "psE", "")
API(helicsPublicationPublishTime, 'v', "pRE", "")
API(helicsPublicationPublishVector, 'v', "pDLE", "")
API(helicsPublicationSetInfo, 'v', "psE", "")
API(helicsPublicationSetMinimumChange, 'v', "pRE", "")
API(helicsPublicationSetOption, 'v', "pIIE", "")
API(helicsPublicationSetTag, 'v', "pssE", "")
API(helicsQueryBrokerExecute, 's', "qbE", "")
API(helicsQueryBufferFill, 'v', "QsLE", "")
API(helicsQueryCoreExecute, 's', "qcE", "")
API(helicsQueryExecute, 's', "qfE", "")
API(helicsQueryExecuteAsync, 'v', "qfE", "")
API(helicsQueryExecuteComplete, 's', "qE", "")
API(helicsQueryFree, 'v', "q", "")
API(helicsQueryIsCompleted, 'B', "q", "")
API(helicsQuerySetOrdering, 'v', "qIE", "")
API(helicsQuerySetQueryString, 'v', "qsE", "")
API(helicsQuerySetTarget, 'v', "qsE", "")
API(helicsSubscriptionGetTarget, 's', "i", "")
API(helicsTranslatorAddDestinationEndpoint, 'v', "tsE", "")
API(helicsTranslatorAddInputTarget, 'v', "tsE", "")
API(helicsTranslatorAddPublicationTarget, 'v', "tsE", "")
API(helicsTranslatorAddSourceEndpoint, 'v', "tsE", "")
API(helicsTranslatorGetInfo, 's', "t", "")
API(helicsTranslatorGetName, 's', "t", "")
API(helicsTranslatorGetOption, 'I', "tI", "")
API(helicsTranslatorGetTag, 's', "ts", "")
API(helicsTranslatorIsValid, 'B', "t", "")
API(helicsTranslatorRemoveTarget, 'v', "tsE", "")
API(helicsTranslatorSet, 'v', "tsRE", "")
API(helicsTranslatorSetCustomCallback, 'v', "tCCuE", "")
API(helicsTranslatorSetInfo, 'v', "tsE", "")
API(helicsTranslatorSetOption, 'v', "tIIE", "")
API(helicsTranslatorSetString, 'v', "tssE", "")
API(helicsTranslatorSetTag, 'v', "tssE", "")
API(helicsWrapDataInBuffer, 'H', "XLL", "d")
