/* stand-in for Apple's header: the probes define the version macros themselves */
