import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d['anchors']['observe_at']=list(obs)
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
ENV='ipkg/environments.py'; PK='ipkg/packages.py'; U='ipkg/utils.py'; RW='ipkg/prefix_rewriters.py'; REQ='ipkg/requirements.py'; REP='ipkg/repositories.py'; DEP='ipkg/dependencies.py'; B='ipkg/build.py'; M='ipkg/mixins.py'; V='ipkg/versions.py'; PL='ipkg/platforms.py'; FH='ipkg/files/backends/http.py'; FB='ipkg/files/backends/__init__.py'; FL='ipkg/files/backends/filesystem.py'; FC='ipkg/files/cache.py'; CLI='ipkg/cli.py'; RX='ipkg/regex.py'; FI='ipkg/files/__init__.py'
p('E01','Installing puts exactly the package content in the environment',
 "When an installation succeeds, every file of the package is present under the environment prefix with the package's content, kind and permissions (prefix rewriting aside), and the package is recorded as installed with its name, version, revision and file list. Nothing else in the environment changes, apart from the dependencies installed with it and another version of it that it replaces.",
 ['histories','inputs'],'every package catalog, every sequence of install/uninstall/reopen/configure/user-file operations, every way of naming the package (file path, requirement string, package object)',
 'The tests install one package with one file into an empty environment; nothing checks other files, records, modes, links or longer histories.',
 [ENV,PK],[('Environment.install','ipkg/environments.py'),('PackageFile.extract','ipkg/packages.py')],
 [('meta[packages]','name -> metadata of the installed package','.ipkg.meta in the prefix')],['Environment.packages','files under the prefix'])
p('E02','Installing brings in every dependency, newest satisfying package first',
 "Provided the packages involved do not make different version demands on the same dependency, after a successful installation every dependency of the package, and of each package installed along with it, is satisfied by an installed package; each one newly installed is the newest in the repository that satisfies the requirement, and dependencies that were already satisfied are left alone. If a dependency cannot be obtained, or the packages to install depend on each other in a loop, the installation fails with an ipkg error and the requested package is neither recorded nor extracted.",
 ['histories','inputs'],'every dependency graph (chains, diamonds, versioned requirements, missing packages, loops), every set of packages installed before, with and without a repository',
 'The only dependency test is commented out; versioned requirements, loops, missing dependencies and already installed dependencies are never exercised.',
 [ENV,REP],[('dependency loop in Environment.install','ipkg/environments.py'),('BaseRepository.__getitem__','ipkg/repositories.py')],obs=['Environment.packages'])
p('E03','Uninstalling removes exactly the package',
 "Uninstalling an installed package removes all of its files and its record and leaves every other file, record and setting as it was, including files a user placed next to them; installing a package and uninstalling it again restores the previous files. Uninstalling a package that is not installed fails with an ipkg error and changes nothing.",
 ['histories','inputs'],'every catalog of packages with disjoint files, every history, regular files, symbolic links, nested and shared directories, files already missing',
 'One test removes the only package of an environment and looks at one file.',
 [ENV],[('Environment.uninstall','ipkg/environments.py')],obs=['Environment.packages','files under the prefix'])
p('E04','At most one version of a package is installed, and it can be replaced',
 "An environment never holds two versions of the same package. Installing the version and revision already installed changes nothing; installing another version or revision, newer or older, replaces it: the files only the replaced one had are gone, the new one's are present, and only the new one is recorded.",
 ['histories'],'every history of installs of several versions and revisions of several packages',
 'No test installs a second version, so the replace path is never run.',
 [ENV],[('already-installed check in Environment.install','ipkg/environments.py'),('Environment.uninstall','ipkg/environments.py')],obs=['Environment.packages'])
p('E05','Environment state survives reopening',
 "After every completed operation, opening the environment again from its prefix shows exactly the packages, package metadata and configuration options that the live environment object shows.",
 ['histories'],'every history of installs, uninstalls, failing operations, configuration changes and reopenings, every prefix spelling',
 'No test ever opens an environment twice, or reads configuration.',
 [ENV,U],[('DictFile.save / reload','ipkg/utils.py'),('Environment.__init__','ipkg/environments.py'),('Environment.set_config','ipkg/environments.py')],obs=['Environment.packages','Environment.get_config'])
p('E06','An interrupted install or uninstall never corrupts an environment',
 "Whatever the point at which the process dies during an installation or a removal, the environment can be opened again, every package not being changed is still recorded with all its files intact, a package being installed is recorded only once all its files are in place, and a package being removed stays recorded until all its files are gone. Repeating the interrupted operation then gives the same result as an uninterrupted one.",
 ['crash_points'],'every file-system state a process death can leave behind during install, upgrade, dependency installation and uninstall',
 'Tests only run operations to completion; no crash point is ever visited.',
 [ENV,U,PK],[('record saved after extraction','ipkg/environments.py'),('record removed after unlinking','ipkg/environments.py'),('DictFile.save','ipkg/utils.py')],obs=['file-system states between mutations'])
p('E07','A failed installation leaves the rest of the environment alone',
 "When an installation fails because the package cannot be found, is not a package, or its archive is unreadable or truncated, the failure is reported by an exception, the requested version is not recorded as installed, every other package stays recorded with its files intact, and the environment stays usable. When the package itself cannot be found, or one of its dependencies cannot, an already installed other version of it also stays installed and intact.",
 ['fault_sequences','histories'],'every kind of failing install at every point of every history',
 'No test makes an installation fail.',
 [ENV,PK],[('Environment.install','ipkg/environments.py')],obs=['Environment.packages','files under the prefix'])
p('E08','Relocation rewrites the prefix where documented and nowhere else',
 "Installing a package at a prefix other than the one it was built in replaces the build prefix by the install prefix in the first line of scripts (#!) found in bin, sbin and lib* directories, in the first 'prefix=' line of pkg-config files and in the first 'libdir=' line of libtool files, and asks the OS X tools to do the same for linked libraries of Mach-O binaries. Every other byte of every file, and every file mode, is left as packaged, and nothing is rewritten when both prefixes are the same.",
 ['inputs'],'every file content (any number of lines, with or without the searched line, empty, binary, with or without final newline), every location, mode and prefix',
 'prefix_rewriters has no test at all.',
 [RW,ENV,RX],[('rewrite_prefix','ipkg/prefix_rewriters.py'),('PKGCONFIG_FILE, LIBTOOL_FILE','ipkg/regex.py')],obs=['bytes and modes of installed files'])
p('E09','Installing, uninstalling and unpacking never touch anything outside',
 "Whatever a package or a source archive contains (absolute names, '..' components, links pointing outside, metadata listing such files), installing or uninstalling it never creates, changes or deletes anything outside the environment prefix, and unpacking sources never does so outside the target directory.",
 ['inputs'],'every archive member name, link target and metadata file list',
 'Tests only use well-behaved archives.',
 [PK,ENV,U],[('PackageFile.extract','ipkg/packages.py'),('Environment.uninstall','ipkg/environments.py'),('unarchive','ipkg/utils.py')],obs=['files outside the prefix'])
p('E10','Environment variables put the environment first and keep the rest',
 "An environment's search-path variables (PATH, MANPATH, PKG_CONFIG_PATH, C_INCLUDE_PATH, the dynamic library path) start with the environment's own directories, each listed once, followed by the inherited entries in their order; IPKG_ENVIRONMENT, TMPDIR and the prompt name the environment and all other inherited variables keep their value. Commands run in the environment see exactly these variables, and list variables behave as ordered lists without duplicates of the entry being placed.",
 ['inputs','histories'],'every inherited environment and every sequence of set/insert/append/remove operations',
 'Tests check three constructor cases on fixed values.',
 [ENV],[('EnvironmentVariables.__init__','ipkg/environments.py'),('ListVariable','ipkg/environments.py'),('Environment.execute','ipkg/environments.py')],obs=['EnvironmentVariables.as_string_dict','environment of child processes'])
p('E11','Package variables follow the installed packages',
 "Installing a package that defines environment variables makes them available at once, with %(directory)s references replaced by the environment's directories, and every later opening of the environment shows the variables of exactly the installed packages. A value that is not a valid format string is used as it is, and never prevents the package from being installed or the environment from being opened.",
 ['inputs','histories'],'every variable value (all % sequences) and every install/uninstall/reopen history',
 'One test substitutes one valid reference.',
 [ENV],[('EnvironmentVariables.add','ipkg/environments.py'),('Environment.__init__','ipkg/environments.py')],obs=['Environment.variables'])
p('E12','The directories of an environment are made completely, and only tmp is emptied',
 "Creating the directories of an environment makes its prefix, bin, sbin, include, lib, lib/pkgconfig, share, share/man and tmp, and nothing else. Where some of them exist it fails with an ipkg error and makes nothing, unless it is told to tolerate them: then it makes the missing ones, so that an interrupted creation can be completed, and fails with an ipkg error where something which is not a directory is in the way. Neither changes anything that was there. A temporary directory is a new one, empty and private, directly in tmp, and its name starts as wanted; cleaning up removes everything in tmp, whatever its kind, keeps tmp, and touches nothing else, the targets of links included.",
 ['histories','crash points'],'every state of the directories (missing, present, files in their place), every history of creations, temporary directories, cleanings and changes by the user, dying at any step',
 'Tests create the directories of a new environment once; nothing creates or cleans temporary directories.',
 [ENV,U],[('EnvironmentDirectories.create','ipkg/environments.py'),('Environment.mktmpdir, cleanup_tmpdir','ipkg/environments.py'),('mkdir','ipkg/utils.py')],obs=['file system around the prefix'])
p('R01','A requirement accepts exactly the versions meeting all its selectors',
 "A requirement written with any combination of ==, !=, <, <=, > and >= selectors is satisfied by a package exactly when the name is the same, the platform is compatible and the version meets every selector; the order, repetition and spacing of selectors do not matter. Requirements whose equalities and bounds contradict one another, and no others, are rejected with an ipkg error.",
 ['inputs'],'every set of selectors over every version string, every candidate package, dict, formula or version',
 'Tests sample about twenty selector pairs with one-digit versions and never use !=.',
 [REQ],[('remove_useless_version_selectors','ipkg/requirements.py'),('Requirement.satisfied_by','ipkg/requirements.py')],obs=['Requirement.satisfied_by','Requirement.satisfied_by_version'])
p('R02','Merging two requirements means both',
 "Adding two requirements on the same package gives a requirement satisfied by exactly the packages that satisfy both, whichever is on the left and however the additions are grouped, and whose extras are those of both. It fails with an ipkg error exactly when the names differ, the platforms are incompatible or the version demands contradict each other.",
 ['inputs'],'every pair and triple of requirements, with wildcards in platforms and every form of version string',
 'One test merges one pair; pre-release, zero and dashed versions and platforms are never merged.',
 [REQ],[('Requirement.__add__','ipkg/requirements.py')],obs=['Requirement.__add__'])
p('R03','Platforms match component by component, with any as a wildcard',
 "Two platforms match exactly when each of OS name, OS release and architecture is the same or is 'any' on either side, whichever of the two is asked and whether it is given as an object or as text in any letter case; a text that is not a platform matches nothing and cannot be parsed. Printing and parsing a platform gives the same platform back, and a requirement prefixed with a platform accepts only packages of a matching platform. The platform of the machine is the name of its Linux distribution in lower case, or osx, with its release and architecture, and any other system is refused with an ipkg error.",
 ['inputs'],'every pair of platforms and platform strings',
 'Tests compare a few fixed platforms; matching inside requirements and repositories is only tried with any.',
 [PL,REQ],[('Platform.__eq__','ipkg/platforms.py'),('Platform.parse','ipkg/platforms.py')],obs=['Platform ==, !=','Requirement.satisfied_by'])
p('R04','Requirement strings are parsed or cleanly rejected, and compare consistently',
 "Any text is either accepted as a requirement, with its name, extras and selectors read as written, or rejected with an ipkg error, and never fails in another way. Requirements that demand the same (same platform, name, extras and selectors in any order) are equal, not unequal and have the same hash, those that differ in one of these are unequal, and comparing with text that is no requirement is simply false.",
 ['inputs'],'every text, every pair of requirements',
 'A handful of strings is tried; malformed selectors and != between requirements are not.',
 [REQ],[('parse, parse_version','ipkg/requirements.py'),('Requirement.__eq__, __hash__','ipkg/requirements.py')],obs=['Requirement()'])
p('V01','Packages, formulas and specs are ordered by version, then revision',
 "Among packages of one name whose version strings denote different versions when they differ, exactly one of <, == and > holds, following the version order and then the revision order (numerically, 10 after 9), and <=, >= and != agree with them; objects of different names are never ordered or equal. Compared with a text name[==version[:revision]], equality ignores the parts the text leaves out, ordering needs the parts that decide it, and a text that is not such a spec is an ipkg error.",
 ['inputs'],'every pair of packages, formulas and spec strings',
 'Tests compare a dozen fixed pairs.',
 [M,U,RX],[('NameVersionRevisionComparable','ipkg/mixins.py'),('parse_package_spec, make_package_spec','ipkg/utils.py')],obs=['comparison operators'])
p('V02','Sorting by version is a stable total order and most_recent is its maximum',
 "Sorting version strings gives the same strings in increasing version order (numeric parts compared as numbers, pre-releases before the release, trailing zeros ignored), decreasing when reversed, versions which are equal in that order keeping the order in which they were given, with an optional parser deciding the order, and the most recent of a collection is one that none of the others exceeds under the same parser.",
 ['inputs'],'every collection of version strings, every parser',
 'Two tests with two-component versions.',
 [V],[('sorted, most_recent, extract, compare','ipkg/versions.py')],obs=['versions.sorted','versions.most_recent'])
p('V03','Package specifications name exactly one package, both ways',
 "A package specification, NAME[==VERSION[:REVISION]], is read as exactly those parts, and every other text is refused with an ipkg error. The specification made of a package, a formula or a dictionary has the name, version and revision it has, as far as it has them, so that reading it gives them back; what has no name is refused with an ipkg error. The text of a package is a requirement which this package satisfies.",
 ['inputs'],'every text, every package, formula or dictionary with or without version and revision',
 'Tests make specifications of three dictionaries and an object, and read two texts.',
 [U,'ipkg/regex.py','ipkg/packages.py'],[('parse_package_spec, make_package_spec','ipkg/utils.py'),('PACKAGE_SPEC','ipkg/regex.py'),('MetaPackage.as_requirement','ipkg/packages.py')],obs=['results and errors of the functions'])
p('P01','A repository finds exactly the satisfying packages, newest first',
 "Looking a requirement up in a package or formula repository returns exactly the entries whose name, platform and version satisfy it, ordered from newest to oldest by version and then revision; indexing returns the first of them and fails with an ipkg error when there is none. Iterating over a repository yields every entry exactly once.",
 ['inputs'],'every repository content and every requirement',
 'The test repositories hold one version of each package, so selection and order are never exercised.',
 [REP,V],[('BaseRepository.find, __getitem__','ipkg/repositories.py')],obs=['find','[]','iteration'])
p('P02','The repository index matches the packages on disk',
 "After building a formula into a local repository, adding a package and saving, or rebuilding its index, the index lists every package of the repository exactly once, with the package's own metadata and the SHA-256 of its current file, in the live object and when the repository is opened again; rebuilding an index drops entries whose file is gone. Every indexed package can be found and installed, and adding what is no readable package is refused and changes nothing.",
 ['histories'],'every sequence of builds (including rebuilding the same version), additions, deletions of files, index rebuilds and reopenings',
 'Tests index one package once into an empty repository.',
 [REP,U],[('LocalPackageRepository.add, update_metadata, build_formula','ipkg/repositories.py'),('DictFile','ipkg/utils.py')],obs=['repository.json','LocalPackageRepository iteration'])
p('P03','Building a formula repository builds every buildable formula once, in order',
 "Building all formulas of a repository always terminates, builds each formula that is not yet packaged and whose dependencies can all be met exactly once, after its dependencies and whatever order the formulas come in, and returns exactly the packages it built. Formulas that fail, have missing dependencies or depend on each other in a loop are left out without preventing the others from being built.",
 ['inputs','histories'],'every dependency graph, every order of the formulas, every set of failing formulas and already built packages',
 'The only test of it is commented out.',
 [REP,B],[('LocalPackageRepository.build_formulas','ipkg/repositories.py')],obs=['returned packages','repository index'])
p('P04','An interrupted index update never loses the repository index',
 "Whatever the point at which the process dies, or a package fails to load, while a repository index is rebuilt or a package is added to it, the index stored on disk can be read and is the complete previous index or the complete new one.",
 ['crash_points','fault_sequences'],'every file-system state left by a process death during update_metadata and build_formula, every unreadable package',
 'Tests only run updates to completion on valid packages.',
 [REP,U],[('LocalPackageRepository.update_metadata','ipkg/repositories.py'),('DictFile.save','ipkg/utils.py')],obs=['repository.json at every intermediate state'])
p('S01','A dependency solution is complete and consistent',
 "When the solver returns a solution for a target, it contains the target and, for every requirement of each of its members, exactly one package of the required name, whose version and platform satisfy it; it contains nothing that the target does not need directly or indirectly. Packages already installed in the environment are used for the requirements they satisfy, and are listed only when asked for.",
 ['inputs','schedules'],'every repository, environment and target, and every iteration order of the hash-based collections the solver uses',
 'Five fixed catalogs; one of the tests is known to flip with hash order.',
 [DEP],[('Solver.from_obj, find_best_dependencies, solve','ipkg/dependencies.py')],obs=['Solver.solve'])
p('S02','A solution lists dependencies before their dependents, once each',
 "In every solution the solver returns, each package is listed exactly once and after all the packages it depends on, so installing in the listed order never meets a missing dependency.",
 ['inputs','schedules'],'every dependency graph and every hash iteration order',
 'Two fixed graphs are checked by exact list equality.',
 [DEP],[('Solver.solve','ipkg/dependencies.py')],obs=['Solver.solve'])
p('S03','The solver finds the newest solution, whatever the iteration order',
 "When all available versions of each package have the same requirements, the solver returns a solution if and only if one exists, and then picks for each package not satisfied by the environment the newest version (and revision) meeting all the requirements placed on it, independently of the order in which packages, requirements and versions are visited.",
 ['inputs','schedules'],'every such repository, every order of versions, requirements and hash iteration',
 'Fixed catalogs in one order; the suite repeats them at 16 hash offsets and still only sees the same graphs.',
 [DEP,V],[('select_most_recent_version','ipkg/dependencies.py'),('SolverRequirement.merge','ipkg/dependencies.py')],obs=['Solver.solve'])
p('S04','The solver reports what it cannot solve, and only that',
 "When a required package is missing, when requirements contradict each other or when packages depend on each other in a loop, the solver fails with an ipkg error instead of returning a list or running forever. It never reports a loop when the packages that may be needed do not depend on each other in a loop.",
 ['inputs','schedules'],'every repository with missing packages, conflicts, loops, self-loops, loops among versions that are not selected',
 'One loop test.',
 [DEP],[('DependencyLoop','ipkg/dependencies.py'),('Solver.solve','ipkg/dependencies.py')],obs=['exceptions of Solver.solve'])
p('B01','A built package contains exactly the files the build added',
 "The package a successful build produces contains every file and symbolic link that the formula's installation added under the environment prefix, with its content and mode, and nothing that was there before; its metadata names the formula, version, revision, dependencies, variables, platform, build prefix and exactly these files. Installing the package elsewhere recreates these files.",
 ['inputs'],'every set of added, pre-existing and overwritten files, nested directories, links, every formula attribute, every prefix spelling',
 'One formula adding one file; only the name in the metadata is checked.',
 [B,PK],[('Formula.build, find_files, __create_package','ipkg/build.py'),('make_filename','ipkg/packages.py')],obs=['package archive and its metadata'])
p('B02','Building leaves the build environment as it found it',
 "After a successful build in an existing environment where no installed package had to be replaced for it, the environment's installed packages and files are the same as before the build: dependencies that were already installed stay installed, those installed for the build are removed again, and so are the files the build added. Without an environment a temporary one is used and, unless asked to keep it, nothing of it remains.",
 ['histories','inputs'],'every set of installed packages and every dependency graph of the formula',
 'No test builds in an existing environment or with dependencies.',
 [B,ENV],[('installed_dependencies and cleanup in Formula.build','ipkg/build.py')],obs=['Environment.packages','files under the prefix','temporary directory'])
p('B03','A build only succeeds if every step succeeded',
 "If any step of a build fails (fetching, verifying or unpacking the sources, a dependency, a patch, a command exiting with a non-zero status or not found), the build raises an ipkg error and no package is created or indexed. On success the steps were run in order, each in the source directory with the environment's variables and exactly the arguments given.",
 ['fault_sequences'],'every step failing, every command line',
 'Only a successful build with one command is tested.',
 [B,U],[('Formula.run_command, __getattr__, run_configure','ipkg/build.py'),('execute','ipkg/utils.py')],obs=['exceptions','commands actually run'])
p('B04','Loading a formula file yields the one formula it defines',
 "Loading a formula file gives exactly the one public formula class the file defines, with the attributes written there, whatever other formula files were loaded before or are loaded after, and whatever their names; classes loaded earlier keep seeing the variables of their own file. A file which does not exist, imports what does not exist, or does not define exactly one public formula class is refused with an ipkg error, and so is making an instance of a formula which lacks its name, version, revision or sources. A formula repository holds the formula of each file named NAME-VERSION.py in its directories, and nothing else.",
 ['histories','inputs'],'every history of loads, every set of files and file names, other classes, helper classes and values in the files',
 'One file is loaded by one test; no test loads files with colliding names or refuses one.',
 [B,REP,RX],[('Formula.from_file','ipkg/build.py'),('FormulaRepository','ipkg/repositories.py'),('FORMULA_FILE','ipkg/regex.py')],obs=['classes loaded, their attributes and methods'])
p('F01','Sources are only used if their checksum matches',
 "Opening a source file that declares a checksum (sha512, sha384, sha256, sha224, sha1 or md5) succeeds, positioned at the start, exactly when the whole content, local or remote, has that checksum, and fails with an ipkg error otherwise; verifying does not move the position of an open file. Without a declared checksum the content is returned as it is.",
 ['inputs'],'every content, digest type, declared value and read position',
 'Two tests on one file with md5 and sha256.',
 [B,FB,FL,FH],[('File.open','ipkg/build.py'),('BaseFile.verify_checksum','ipkg/files/backends/__init__.py')],obs=['File.open','verify_checksum'])
p('F02','Remote files are exactly what the server has, cached by URL',
 "Reading a remote file returns exactly the bytes the server sent for its URL, with seeking as on a local file; an error status, a connection failure or a download cut short is an ipkg error, never content. With a cache directory, a URL is downloaded at most once and later readers get the same bytes without the network, different URLs never share content, failures are never cached; without one nothing is stored.",
 ['histories','fault_sequences'],'every sequence of opens, reads, server changes, failures and cache settings over several URLs',
 'The HTTP backend and the cache have no tests.',
 [FH,FC],[('HttpFile.__download','ipkg/files/backends/http.py'),('cache.get, has, set','ipkg/files/cache.py')],obs=['bytes read','requests received by the server','cache directory'])
p('F03','A crash while downloading never leaves a damaged cache entry',
 "Whatever the point at which the process dies while a remote file is being downloaded and stored in the cache, later readers get the complete content: a cache entry that is found is complete.",
 ['crash_points'],'every file-system state left by a process death while a cache entry is written',
 'The cache has no tests.',
 [FC,FH],[('cache.set','ipkg/files/cache.py')],obs=['cache directory at every intermediate state'])
p('F04','Unpacking sources yields the tree that was packed',
 "Unpacking a tar.gz, tar.bz2, tar.xz or zip source archive with a single top-level directory recreates its tree (names, kinds, contents, and permissions for tar formats) under the target directory and returns the path of that directory, whatever the format; any archive with zero or several top-level items, or of another type, is refused with an ipkg error without extracting anything.",
 ['inputs'],'every tree, format and number of top-level items',
 'One tree with one file in four formats.',
 [U],[('unarchive','ipkg/utils.py')],obs=['target directory'])
p('F05','A file opens the same way whatever its location',
 "Opening a path, a file URL or an http URL of the same content yields objects with the same read, seek and tell results for every sequence of calls; a location that does not exist or whose scheme is unknown fails with an ipkg error.",
 ['inputs','histories'],'every content (binary included) and every sequence of reads, seeks and tells',
 'Local files are only read as a whole; http never.',
 [FI,FL,FH],[('vopen','ipkg/files/__init__.py'),('LocalFile, HttpFile','ipkg/files/backends')],obs=['vopen'])
p('D01','A stored dictionary reads back as it was saved',
 "Saving a file-backed dictionary and loading it again, in place or through a new object, local or over http, gives the same content; clearing it empties the object and the file whatever was stored, loading an absent local file or an empty one gives an empty dictionary, and content that is not valid is refused with an ipkg error.",
 ['histories','inputs'],'every sequence of assignments, saves, clears and reloads of any JSON content',
 'Five single-step tests.',
 [U],[('DictFile','ipkg/utils.py')],obs=['DictFile'])
p('D02','Saving a dictionary is all or nothing',
 "Whatever the point at which the process dies or an error occurs while a file-backed dictionary is saved over a previous version, loading the file afterwards gives the complete previous content or the complete new content.",
 ['crash_points','fault_sequences'],'every file-system state left by a process death during save, and contents that cannot be stored',
 'Tests only save successfully.',
 [U],[('DictFile.save','ipkg/utils.py')],obs=['the file at every intermediate state'])
p('X01','Running a command reports its outcome faithfully',
 "Running a command passes it exactly the arguments, input, directory and variables given and returns its output; it raises an ipkg error naming the command exactly when the command cannot be started or exits with a non-zero status, including when it is killed by a signal.",
 ['inputs'],'every argument list or command line, input, environment and exit status',
 'Six fixed commands.',
 [U,ENV],[('execute','ipkg/utils.py'),('Environment.execute','ipkg/environments.py')],obs=['execute'])
p('X02','The command line does what it is told, on the environment it is told',
 "Each ipkg command acts on the environment given by its option or argument, or else on the current one named by IPKG_ENVIRONMENT (building commands without one use a temporary environment), on the repository it is given, and on no other, with the same effect as the library operation: list prints exactly the installed packages, config:get what config:set stored, printenv the environment's variables; exec and shell run the command with its arguments in the environment, mkenv installs the requirements of its file, build stores the package where told, mkrepo and build-repository index the packages of the repository. A command that fails with an ipkg error, including one without any environment to act on, exits with a non-zero status and changes nothing beyond what the failing operation did.",
 ['histories','inputs'],'every sequence of command lines, with and without a current environment',
 'cli.py has no tests.',
 [CLI],[('Ipkg.__call__','ipkg/cli.py'),('commands','ipkg/cli.py')],obs=['exit status, output, environment'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
