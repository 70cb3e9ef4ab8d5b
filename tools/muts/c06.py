S='src/'; I='include/Lintel/'
MUTS=[
 ('C06','hts-prune-nodelete',I+'HashTupleStats.hpp','''		    delete i->second;
		    data.remove''','''		    data.remove''','V'),
 ('C06','cube-clear-cond',I+'StatsCube.hpp','''	    if (clear_base_data) {
		base_data.clear();
	    }
	    for(PTCMIterator i = cube_data.begin(); i != cube_data.end(); ++i) {
		delete i->second;
	    }
''','''	    if (clear_base_data) {
		base_data.clear();
	    for(PTCMIterator i = cube_data.begin(); i != cube_data.end(); ++i) {
		delete i->second;
	    }
	    }
''','V'),
 ('C06','cube-clear-empty-q',I+'StatsCube.hpp','''	    for(PTCMIterator i = cube_data.begin(); i != cube_data.end(); ++i) {
		delete i->second;
	    }
''','''	    if (cube_data.size() > 0) {
	    for(PTCMIterator i = cube_data.begin(); i != cube_data.end(); ++i) {
		delete i->second;
	    }
	    }
''','Q'),
 ('C06','hts-helper-q',I+'HashTupleStats.hpp','''	    for(HTSiterator i = data.begin(); i != data.end(); ++i) {
		delete i->second;
	    }
	    data.clear();
	}
''','''	    freeAll();
	    data.clear();
	}
	void freeAll() {
	    HTSiterator i = data.begin();
	    while (i != data.end()) {
		StatsT *s = i->second;
		delete s;
		++i;
	    }
	}
''','Q'),
 ('C06','ssg-reset-nodelete',S+'StatsSeriesGroup.cpp','''	delete stats[i];''','','V'),
 ('C06','hist-group-dtor',S+'StatsHistogram.cpp','''	delete histograms[i];''','','V'),
 ('C06','quantile-dtor-cond',S+'StatsQuantile.cpp','''    delete[] tmp_buffer;''','''    if (first_half) delete[] tmp_buffer;''','V'),
 ('C06','quantile-scalar-delete',S+'StatsQuantile.cpp','''    delete[] tmp_buffer;''','''    delete tmp_buffer;''','V'),
 ('C06','bmh-free',S+'BoyerMooreHorspool.cpp','''    delete [] needle;''','''    free(needle);''','V'),
 ('C06','key-dtor',S+'ClockPThread.cpp','deletePerThreadClock) == 0','NULL) == 0','V'),
 ("C06","ssg-null-skip-q","src/StatsSeriesGroup.cpp","    for(unsigned int i=0;i<stats.size();i++) {\n\tdelete stats[i];","    for(unsigned int i=0;i<stats.size();i++) {\n\tif (stats[i] == NULL) continue;\n\tdelete stats[i];\n\tstats[i] = NULL;","Q"),
 ("C06","ssg-skip-v","src/StatsSeriesGroup.cpp","    for(unsigned int i=0;i<stats.size();i++) {\n\tdelete stats[i];","    for(unsigned int i=0;i<stats.size();i++) {\n\tif (i % 64 == 63) continue;\n\tdelete stats[i];","V"),
]
