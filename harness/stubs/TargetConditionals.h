/* stand-in for Apple's header: the probes define TARGET_OS_IPHONE and TARGET_IPHONE_SIMULATOR themselves */
