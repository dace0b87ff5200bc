"""Which suites decide which property."""
SUITES = {
    'F01': ['fetch'], 'F02': ['fetch'], 'F03': ['fetch'], 'F05': ['fetch'],
    'B01': ['formula'], 'B02': ['formula'], 'B03': ['formula'],
    'B04': ['load'],
    'F04': ['archive'],
    'D01': ['store'], 'D02': ['store'],
    'X01': ['execution'], 'X02': ['cli'],
    'P03': ['builds'],
    'P01': ['find'],
    'P02': ['repo'], 'P04': ['repo'],
    'V01': ['ordering'], 'V02': ['ordering'],
    'V03': ['specs'],
    'E01': ['env'], 'E02': ['env'], 'E03': ['env'], 'E04': ['env'],
    'E05': ['env'], 'E06': ['envcrash'], 'E07': ['env'], 'E08': ['relocate'],
    'E09': ['contain'], 'E10': ['vars'], 'E11': ['env'],
    'E12': ['layout'],
    'S01': ['solver'], 'S02': ['solver'], 'S03': ['solver'],
    'S04': ['solver'],
    'R01': ['requirements'], 'R02': ['requirements'],
    'R03': ['requirements'], 'R04': ['requirements'],
}
LEVEL = {}

# suite: technique, what is and is not covered
NOTES = {
    'ordering': (
        'TLA+ specification of versions and orders, TLC; trace validation of '
        'recorded comparisons and sorts',
        'MC_Ordering is checked exhaustively over a universe of versions; TLC '
        'then judges every comparison and sort the code makes over generated '
        'packages, specifications and collections.'),
    'requirements': (
        'TLA+ specification of requirements and platforms (meaning, merging '
        'and grammar), TLC; trace validation of the real parser and matcher',
        'MC_Requirements is checked exhaustively over all sequences of '
        'selectors and platforms of a small universe; TLC then judges what '
        'the code made of generated requirements, texts and platforms.'),
    'env': (
        'TLA+ specification of environments as state machines, TLC; replay '
        'of tours of the model and of random histories into the code, trace '
        'validation of the file system after every operation',
        'MC_Env is checked exhaustively over small catalogs and its '
        'transitions are replayed; random histories use larger catalogs. '
        'Two packages owning the same file are out of scope.'),
    'solver': (
        'TLA+ specification of solutions and of the search for them, TLC; '
        'trace validation of the real solver',
        'MC_Solver takes the requirements of generated problems in every '
        'order; TLC then judges the answers of the code to generated '
        'problems, under several orders of everything. S03 is decided where '
        'all versions of a name have the same requirements.'),
    'find': (
        'TLA+ specification of lookups by requirement, TLC; trace validation '
        'of find, indexing and iteration of real repositories',
        'The definition of the right answer is shared with the models of '
        'requirements and orders; TLC judges the answers of the code over '
        'generated package and formula repositories.'),
    'repo': (
        'TLA+ specification of repository indexes as a state machine with '
        'crashes, TLC; replay of model transitions and of random histories, '
        'trace validation of the index after every operation and at every '
        'crash point',
        'MC_Repo is checked exhaustively over small universes, dying at any '
        'step included; the states a dying process leaves are recorded at '
        'every line executed and around every file-system primitive. Loss '
        'of unsynced writes at a power failure is not modelled.'),
    'builds': (
        'TLA+ specification of building a set of formulas (fixed point and '
        'order), TLC; trace validation of real builds of generated sets',
        'MC_Builds is checked exhaustively over small dependency graphs, '
        'every order included; TLC then judges what the code built of '
        'generated repositories of formulas.'),
    'envcrash': (
        'TLA+ specification of environments at the granularity of '
        'file-system steps, TLC; trace validation of the states real '
        'installations and removals go through and of repeating them there',
        'MC_Crash explores every point of death, twice in a history, over '
        'small catalogs; the states a dying process leaves are recorded at '
        'every line executed and around every file-system primitive. Loss '
        'of unsynced writes at a power failure is not modelled.'),
    'relocate': (
        'TLA+ specification of relocation, TLC; trace validation of the '
        'bytes and modes real installations leave and of the calls of the '
        'OS X tools',
        'MC_Relocate explores all files of a few lines in all places; TLC '
        'then judges every file of generated packages. The OS X tools are '
        'stand-ins. Hard links, set-id files and pkg-config or libtool files '
        'in unusual directories are out of scope.'),
    'contain': (
        'TLA+ specification of a file system with links and of unpacking '
        'and removing in it, with and without precautions, TLC; replay of '
        'every kind of escape TLC finds without precautions, trace '
        'validation of the files outside',
        'MC_Contain explores all sequences of two or three members and '
        'removals (four, thorough), with precautions; those which escape '
        'without are made into packages, archives and records and given to '
        'the code, as nobody in a scratch directory. Longer sequences are '
        'generated at random.'),
    'vars': (
        'TLA+ specification of environment variables and of list variables, '
        'TLC; trace validation of real environments and of what commands '
        'run in them see',
        'MC_Vars explores environments entered from one another over all '
        'small inherited lists; TLC then judges generated inherited '
        'variables and edits. Empty inherited list variables are out of '
        'scope.'),
    'execution': (
        'TLA+ specification of command splitting and of the life of a '
        'command, TLC; replay of all small texts of the model and of '
        'generated commands, trace validation of what the command saw and of '
        'what its caller got',
        'MC_Exec is checked exhaustively over all texts of a small alphabet '
        'and all ways of ending; a compiled helper reports how it was really '
        'run. Arguments are ASCII (Java encodes the others).'),
    'store': (
        'TLA+ specification of file-backed dictionaries as a state machine '
        'with crashes and failures, TLC; replay of model transitions and of '
        'random histories, trace validation after every operation and at '
        'every crash point',
        'MC_Store is checked exhaustively for two objects sharing a file; '
        'the states a dying process leaves are recorded at every line and '
        'around every file-system primitive, and writes are made to fail. '
        'Loss of unsynced writes at a power failure is not modelled.'),
    'archive': (
        'TLA+ specification of archives and of the trees they unpack to, '
        'TLC; replay of the archives of the model and of generated ones, '
        'trace validation of what unpacking really created',
        'MC_Archive explores the archives of a few members; TLC then judges '
        'what the code unpacked of them and of generated archives, damaged '
        'ones included. An archive whose only top-level item is a file is '
        'out of scope, and so are the modes and links of zip archives.'),
    'fetch': (
        'TLA+ specification of opening, downloading, caching and reading '
        'files as a state machine with concurrent processes and deaths, TLC; '
        'replay of model transitions and of random histories against a '
        'loopback server, trace validation after every call and at every '
        'crash point',
        'MC_Fetch is checked exhaustively over small universes, two '
        'processes sharing the cache; the server fails in every way of '
        'lib/web.py. Content encodings and several checksums declared for '
        'a file are out of scope.'),
    'load': (
        'TLA+ specification of loading formula files into modules, TLC; '
        'replay of the histories in which files sharing a module disturb '
        'each other and of generated ones, trace validation of the classes '
        'loaded and of their later use',
        'MC_Load explores every history over files with colliding names; '
        'TLC then judges what the code loaded of them and of generated '
        'files and repositories. Files which change between two loads and '
        'files which are not Python are out of scope.'),
    'layout': (
        'TLA+ specification of making and emptying the directories of an '
        'environment, step by step, TLC; replay of tours of the model and of '
        'random histories, trace validation of the file system after every '
        'operation and at every crash point',
        'MC_Layout explores every history of creations, temporary '
        'directories, cleanings and changes by the user over a few paths, '
        'dying at any step included; its transitions are replayed. Links in '
        'the place of a directory of the environment are out of scope.'),
    'specs': (
        'TLA+ specification of the grammar of package specifications, TLC; '
        'replay of every text of the model and of generated ones into the '
        'code, trace validation of what it made of them',
        'MC_PkgSpec is checked over every text of a few characters of a small '
        'alphabet, all replayed, and every combination of small parts; '
        'generated texts and packages are longer.'),
    'cli': (
        'TLA+ specification of the commands on several environments and a '
        'repository, TLC; replay of model histories and of generated '
        'commands, trace validation of exit status, output and effects',
        'MC_Cli explores every history of commands over two environments, '
        'with every one given and current; TLC then judges command lines '
        'run for real, most of them in one process, some in their own. '
        'Environment variables are ASCII.'),
    'formula': (
        'TLA+ specification of building a formula step by step in an '
        'environment, TLC; replay of model histories and of generated '
        'formulas with commands which report how they were run, trace '
        'validation of the package, the environment and the outcome',
        'MC_Build explores every history of builds, installations and '
        'removals over small catalogs and formulas; TLC then judges real '
        'builds of them and of generated ones. What a failed build leaves '
        'in its environment, and files of the environment a build writes '
        'over, are out of scope.'),
}
