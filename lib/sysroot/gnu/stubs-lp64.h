/* glibc's list of stub functions, absent from this sandbox for this target; nothing the headers need */
