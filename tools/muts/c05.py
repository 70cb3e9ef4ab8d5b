CK="src/Clock.cpp"; PS="src/unstable/ProcessStatistics.cpp"; PH="include/Lintel/unstable/ProcessStatistics.hpp"; TU="src/TestUtil.cpp"; SU="src/StringUtil.cpp"
MUTS=[
("C05","read-noclose",CK,"	char *rv = fgets(buf, bufsize, f);\n	fclose(f);\n	SINVARIANT(rv != NULL);","	char *rv = fgets(buf, bufsize, f);\n	SINVARIANT(rv != NULL);\n	fclose(f);","V"),
("C05","read-empty",CK,"	char *rv = fgets(buf, bufsize, f);\n	fclose(f);\n	SINVARIANT(rv != NULL);","	char *rv = fgets(buf, bufsize, f);\n	if (rv == NULL) { return \"\"; }\n	fclose(f);","V"),
("C05","dir-early",CK,"	INVARIANT(closedir(dir) == 0, \"closedir failed\");\n	INVARIANT(!cpus.empty(), \"can't check frequency scaling, no cpus found?\");","	INVARIANT(!cpus.empty(), \"can't check frequency scaling, no cpus found?\");\n	INVARIANT(closedir(dir) == 0, \"closedir failed\");","V"),
("C05","dir-none",CK,"	INVARIANT(closedir(dir) == 0, \"closedir failed\");\n","	if (cpus.empty()) { closedir(dir); }\n","V"),
("C05","dir-break",CK,"		cpus.push_back(ent->d_name);\n","		cpus.push_back(ent->d_name);\n		if (cpus.size() > 4096) { return true; }\n","V"),
("C05","pipe-fclose",TU,"boost::shared_ptr<FILE> close_pipe(deptool_pipe, pclose);","boost::shared_ptr<FILE> close_pipe(deptool_pipe, fclose);","V"),
("C05","pipe-twice",TU,"        SINVARIANT(!build_os.empty() && !arch.empty());","        pclose(deptool_pipe);\n        SINVARIANT(!build_os.empty() && !arch.empty());","V"),
("C05","ai-error",SU,"    if (res) freeaddrinfo(res);\n","    if (error != 0) freeaddrinfo(res);\n","V"),
("C05","ai-throw",SU,"		hostname = string(cur->ai_canonname);\n		break;","		hostname = string(cur->ai_canonname);\n		SINVARIANT(!hostname.empty());\n		break;","V"),
("C05","ps-dtor",PS,"    CHECKED(fclose(fp)==0, format(\"fclose() failed: %s\") % strerror(errno));","    if (res.page_size != 0) { CHECKED(fclose(fp)==0, format(\"fclose() failed: %s\") % strerror(errno)); }","V"),
("C05","ps-reopen",PS,"    CHECKED(fseek(fp, 0, SEEK_SET)==0, format(\"Can't seek %s: %s\") % file_name % strerror(errno));","    CHECKED((fp = fopen(file_name.c_str(), \"r\")) != 0, format(\"Can't reopen %s: %s\") % file_name % strerror(errno));","V"),
("C05","ps-use-after",PS,"    CHECKED(fclose(fp)==0, format(\"fclose() failed: %s\") % strerror(errno));","    int rc = fclose(fp);\n    CHECKED(rc == 0 || ferror(fp) == 0, format(\"fclose() failed: %s\") % strerror(errno));","V"),
("C05","ps-notry",PS,"    } catch (...) {\n	fclose(fp);\n	throw;\n    }","    } catch (std::bad_alloc &) {\n	fclose(fp);\n	throw;\n    }","V"),
("C05","read-helper-q",CK,["	FILE *f = fopen(filename.c_str(), \"r\");\n	if (f == NULL) {\n	    return \"\";\n	}\n","	char *rv = fgets(buf, bufsize, f);\n	fclose(f);\n"],["	boost::shared_ptr<FILE> file(fopen(filename.c_str(), \"r\"), fclose);\n	FILE *f = file.get();\n	if (f == NULL) {\n	    return \"\";\n	}\n","	char *rv = fgets(buf, bufsize, f);\n"],"V"),
("C05","read-guard-q",CK,["	FILE *f = fopen(filename.c_str(), \"r\");\n	if (f == NULL) {\n	    return \"\";\n	}\n","	char *rv = fgets(buf, bufsize, f);\n	fclose(f);\n"],["	FILE *f = fopen(filename.c_str(), \"r\");\n	if (f == NULL) {\n	    return \"\";\n	}\n	struct Closer { FILE *f; explicit Closer(FILE *a) : f(a) { } ~Closer() { fclose(f); } } closer(f);\n","	char *rv = fgets(buf, bufsize, f);\n"],"Q"),
("C05","dir-helper-q",CK,["    bool doCFPFS() {\n	const string cpu_dir(\"/sys/devices/system/cpu\");\n	DIR *dir = opendir(cpu_dir.c_str());\n        if (dir == NULL) {\n            return true;\n        }\n","	INVARIANT(closedir(dir) == 0, \"closedir failed\");\n"],["    void closeDir(DIR *dir) {\n	INVARIANT(closedir(dir) == 0, \"closedir failed\");\n    }\n    bool doCFPFS() {\n	const string cpu_dir(\"/sys/devices/system/cpu\");\n	DIR *dir = opendir(cpu_dir.c_str());\n        if (!dir) {\n            return true;\n        }\n","	closeDir(dir);\n"],"Q"),
("C05","pipe-manual-q",TU,["        boost::shared_ptr<FILE> close_pipe(deptool_pipe, pclose);\n","        SINVARIANT(!build_os.empty() && !arch.empty());"],["        try {\n","        } catch (...) {\n            pclose(deptool_pipe);\n            throw;\n        }\n        pclose(deptool_pipe);\n        SINVARIANT(!build_os.empty() && !arch.empty());"],"Q"),
("C05","ai-while-q",SU,["	for (struct addrinfo *cur = res; cur != NULL; cur = cur->ai_next) {\n	    if (cur->ai_canonname) {\n		hostname = string(cur->ai_canonname);\n		break;\n	    }\n	}\n    }\n    \n    if (res) freeaddrinfo(res);"],["	struct addrinfo *cur = res;\n	while (cur != NULL && cur->ai_canonname == NULL) { cur = cur->ai_next; }\n	if (cur != NULL) { hostname = cur->ai_canonname; }\n	freeaddrinfo(res);\n    }"],"Q"),
]
