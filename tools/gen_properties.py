#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
INO='src/efsw/FileWatcherInotify.cpp'; GEN='src/efsw/DirWatcherGeneric.cpp'; SNAP='src/efsw/DirectorySnapshot.cpp'
FG='src/efsw/FileWatcherGeneric.cpp'; FI='src/efsw/FileInfo.cpp'; FS='src/efsw/FileSystem.cpp'; PFS='src/efsw/platform/posix/FileSystemImpl.cpp'
SYS='src/efsw/platform/posix/SystemImpl.cpp'; FW='src/efsw/FileWatcher.cpp'; CW='src/efsw/FileWatcherCWrapper.cpp'
IMPL='src/efsw/FileWatcherImpl.cpp'; LOG='src/efsw/Log.cpp'; STR='src/efsw/String.cpp'; UTF='src/efsw/Utf.inl'; API='include/efsw/efsw.hpp'; CAPI='include/efsw/efsw.h'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
LST='FileWatchListener::handleFileAction calls'

p('C01','Native watcher: no change is lost',
 'For a directory watched with the platform (inotify) watcher, replaying the delivered Add, Delete and Moved events, in delivery order, on the listing the directory had when it was watched gives exactly the listing it has once changes have stopped and been processed. This covers the whole subtree for a recursive watch and only the direct children for a non-recursive one. What is inside of a directory is never reported as deleted after the directory itself was. The only names that may go unreported are names inside a directory that itself appeared (was created or moved in) since the last time everything had been processed, and only while synthetic events are off.',
 ['histories','schedules'],'every sequence of create, write, delete, rename (same directory, across directories, in, out, over an existing name), mkdir, rmdir, hard link and symlink operations inside, into and out of the tree, and every way those operations interleave with the processing of their notifications',
 'The unit tests run about twenty fixed single-operation scripts separated by sleeps, so the watcher always processes one event with nothing else pending; sequences of operations that are pending together (batches, split batches, rename chains) are never reached.',
 [INO],[('IN_CREATE/IN_DELETE/IN_MOVED_* handling','FileWatcherInotify::handleAction'),('rename pairing and moved-outside detection','FileWatcherInotify::run'),('watch tree maintenance','FileWatcherInotify::addWatch / checkForNewWatcher / removeWatchLocked')],
 [('mWatches','directories watched and the path each stands for','FileWatcherInotify.hpp'),('mMovedOutsideWatches','renames whose destination was not seen','FileWatcherInotify.hpp')],[LST])
p('C02','Native watcher: no event is invented',
 'Every event the platform watcher delivers names, under the watch it was delivered for, a path inside that watch\'s scope and an action that really happened to that path since the watch was added and since the previous time everything had been processed: Add only for a name that appeared, Delete only for a name that disappeared, Moved only for a real rename from the reported old name to the reported new name, Modified only for a name whose content was written or that appeared. While nothing changes in the watched scope, no event is delivered, however long the watcher runs and whatever happens outside that scope.',
 ['histories','schedules'],'every sequence of file system operations inside and outside the watched tree, every batching of their notifications',
 'The unit tests look only for expected events and never assert the absence of others; one operation at a time cannot create the stale state that produces false events.',
 [INO],[('old name pairing by cookie','FileWatcherInotify::run'),('per watch OldFileName','FileWatcherInotify::handleAction'),('removal of watches that left the tree','FileWatcherInotify::run, removeWatchLocked')],
 [('OldFileName','name that is waiting for the second half of a rename','Watcher.hpp')],[LST])
p('C03','Native watcher: renames are classified correctly',
 'With the platform watcher, renaming an entry within one watched directory delivers exactly one Moved event carrying that directory, the new name and the old name; moving it between two watched directories delivers a Delete for the source and an Add for the destination; moving it out of the watched scope delivers a Delete; moving it in from outside delivers an Add. This holds for files and directories, whether or not the destination name existed before, and however many other operations are pending at the same time, with events of one directory delivered in the order the operations happened (identical consecutive ones may be merged); what happens inside a directory that itself appeared since the last time everything had been processed may be seen late or only in its result.',
 ['histories','schedules'],'all renames over files and directories within, across, into and out of watched directories, mixed with other pending operations and with any split of the notifications into reads',
 'The tests perform one rename at a time and sleep around it; interleaved renames with other cookies, halves split over two reads, and renames over existing names are not sampled.',
 [INO],[('cookie pairing','FileWatcherInotify::run'),('Moved and Add emission','FileWatcherInotify::handleAction')],
 [('currentMoveFrom / currentMoveCookie','pending first half of a rename','FileWatcherInotify::run')],[LST])
p('C04','Native watcher: recursive watches follow the directory tree',
 'Once pending changes have been processed, a change made directly inside any real directory that lies in the scope of a recursive watch (including directories created, renamed or moved in since, at any depth) is reported under that directory\'s current path, and changes in directories that were moved or deleted out of the scope are not reported. A non-recursive watch reports changes to direct children only, whatever happens to its sub-directories.',
 ['histories','schedules'],'every history of directory creation, deletion, renaming and moving (with content, nested, repeated, reusing names), observed by a probe in every directory afterwards',
 'Each unit test checks one new or renamed directory once; the state that goes wrong is the bookkeeping after several directory operations, which only histories reach.',
 [INO],[('checkForNewWatcher','FileWatcherInotify.cpp'),('relabelling of watches after a rename','FileWatcherInotify::handleAction IN_MOVED_TO'),('removal of watches below a moved-out directory','FileWatcherInotify::run')],
 [('mWatches','watch descriptor to path','FileWatcherInotify.hpp')],[LST])
p('C05','Native watcher: content writes are reported, in order',
 'With the platform watcher, every write to or truncation of a regular file by name in a directory being watched is followed by at least one Modified event for that name after the write happened. For each name, the order of the delivered events is the order of the operations: Add before the Modified events of its content, and no Modified event after the Delete of the name unless it was created again or a program still has the deleted file open.',
 ['histories','schedules'],'all sequences of creating, writing, truncating, closing late, and deleting files, in any batching',
 'The tests write a file a few times with pauses between writes and check that some Modified event came; ordering over batches and absence of trailing events are not asserted.',
 [INO],[('IN_MODIFY / IN_CLOSE_WRITE','FileWatcherInotify::handleAction, inotify mask in addWatch')],[],[LST])
p('C06','Synthetic events close the new-directory gap',
 'With LinuxProduceSyntheticEvents set on a recursive watch, every file and directory that exists inside a directory created in or moved into the scope has been reported with an Add under its path by the time pending changes have been processed, at every depth, even when it was created before the watcher could register that directory (unless it was renamed or removed again before that). Only names that really existed are reported, and directories that existed when the watch was added produce no such events.',
 ['histories','schedules'],'every tree shape created or moved in, and every point of the registration at which its entries may appear',
 'No unit test uses the option; the gap depends on what is created between two system calls of the registering thread.',
 [INO],[('synthetic Add loop','FileWatcherInotify::addWatch(fromInternalEvent)')],[('syntheticEvents','per watch option','WatcherInotify.hpp')],[LST])
p('C07','A kernel queue overflow is reported, and watching goes on',
 'When the kernel drops notifications because its queue overflowed, the listener of every watch that may have missed events receives handleMissedFileActions with that watch\'s id and directory. Events for changes made after the overflow was handled are delivered as usual.',
 ['fault_sequences','histories'],'overflows at any position of any event sequence, with any set of watches registered',
 'No unit test overflows the queue (16384 events by default).',
 [INO,API],[('IN_Q_OVERFLOW branch','FileWatcherInotify::handleAction')],[],['handleMissedFileActions calls',LST])
p('C08','Polling watcher: no change is lost',
 'For a directory watched with the generic (polling) watcher, once a poll has completed after the last change, replaying the delivered Add, Delete and Moved events on the listing at the time of the watch gives exactly the current listing of regular files and directories, for the whole subtree if recursive and the direct children if not. This holds whatever changes happened between two polls and however close in time they were, and when a directory disappears the entries in it are reported deleted too.',
 ['histories','schedules'],'every history of file system changes and every placement of polls in it, including several changes within one timestamp tick, inode reuse, hard links, and changes of type under one name',
 'The polling tests use one change per poll and wait two seconds; six suites are left out with the polling watcher because changes within one second are missed.',
 [GEN,SNAP,FI],[('snapshot diff','DirectorySnapshot::scan'),('create/remove/moveDirectory','DirWatcherGeneric.cpp')],
 [('Files','last known entries of a directory','DirectorySnapshot.hpp'),('Directories','sub directory watchers','DirWatcherGeneric.hpp')],[LST])
p('C09','Polling watcher: no event is invented and idle polls are silent',
 'Each event of the polling watcher concerns a regular file or a directory (also one reached through a link) and corresponds to a difference between the states of the watched tree seen by two successive polls: Add for a name that was not there, Delete for a name that is gone, Modified for a name that was and is there, Moved from an old name that is gone to a new name that was not there and is the same file. A poll that finds nothing changed delivers nothing, whatever the tree contains (hard links, symbolic links, devices, unreadable entries).',
 ['histories','inputs'],'every tree content and history of changes between polls',
 'The tests never assert silence, and their trees contain two or three plain files.',
 [GEN,SNAP],[('snapshot diff','DirectorySnapshot::scan'),('inode matching','DirectorySnapshot::nodeInFiles')],[('Files','last known entries','DirectorySnapshot.hpp')],[LST])
p('C10','Polling watcher: modifications are detected',
 'If a regular file has the same name at two polls, and its size, modification time, owner, group or permissions differ between them, exactly one Modified event is delivered for it by the later poll, for every file in scope. A file whose attributes did not change is never reported as modified.',
 ['inputs','histories'],'all combinations of attribute changes (growing, shrinking, same size with new time, time moving backwards, permission changes) over any set of files at any depth',
 'The tests append to one file; the other attributes and combinations are not covered.',
 [FI,SNAP],[('FileInfo comparison','FileInfo::operator=='),('FilesModified','DirectorySnapshot::scan')],[],[LST])
p('C11','Polling watcher: recursion follows the directory tree',
 'A recursive polling watch reports changes inside every real sub-directory of the watched directory at any depth under its current path, including directories created, renamed, moved or replaced since the watch was added, and stops reporting directories that are gone. A non-recursive polling watch reports only direct children, also for sub-directories created later.',
 ['histories'],'every history of directory operations between polls, observed by probes in every directory',
 'The tests cover one created and one renamed directory with a poll after each step.',
 [GEN],[('createDirectory / removeDirectory / moveDirectory / addChildren','DirWatcherGeneric.cpp')],[('Directories','sub directory watchers by name','DirWatcherGeneric.hpp')],[LST])
p('C12','addWatch: outcomes are exact and failed adds have no effect',
 'Adding a watch on an existing readable local directory that is not watched yet returns a positive id different from all ids in use; otherwise it returns the negative code of the documented cause: not found (missing or not a directory), not readable, repeated (also through a symbolic link), out of scope, or unspecified for system failures. A failed addWatch changes nothing: the list of watched directories, the other watches and their events stay as they were. Trailing slashes do not matter. A new watch reports only what happens after addWatch returned: nothing that was there before and has not been touched is reported as created, deleted or moved, also when the directory was already watched as part of another watch.',
 ['inputs','configurations','fault_sequences'],'all kinds of paths (missing, file, dangling link, link to watched directory, unreadable, with and without slash, odd bytes), both backends, both option settings, any registry state, system call failures',
 'The tests call addWatch only on fresh directories and two link cases.',
 [INO,FG,FW,LOG],[('precondition chain','FileWatcherInotify::addWatch, FileWatcherGeneric::addWatch')],[('mRealWatches / mWatches','registered watches','FileWatcherInotify.hpp, FileWatcherGeneric.hpp')],['addWatch return value','directories()'])
p('C13','The registry agrees with the calls made',
 'After any sequence of addWatch and removeWatch calls, successful or not and by id or by path, directories() lists exactly the directories of the watches added and not removed, once each and with a trailing slash; a directory can be watched again after it was removed; removing an unknown id or path has no effect.',
 ['histories','configurations'],'every sequence of calls on sets of disjoint directories, with file system changes and processing in between, both backends, before and after watch()',
 'One test removes one watch; directories() is never called by the tests.',
 [INO,FG],[('addWatch / removeWatch / directories','FileWatcherInotify.cpp, FileWatcherGeneric.cpp')],[('mWatchesRef','path to id','FileWatcherInotify.hpp')],['directories()','addWatch return value'])
p('C14','Watches are independent and events reach the right listener',
 'Every event is delivered to the listener that was passed for the watch whose directory contains the change, with that watch\'s id and a directory inside that watch (for watches on separate trees). Adding or removing one watch (by id or path), or failing to add one, does not change the events delivered for any other watch. A removed watch delivers nothing for changes made after its removal, and the same directory added again reports to its new listener under its new id.',
 ['histories','configurations'],'every set of watches on separate directories (including names that are prefixes of each other) with any mix of listeners, recursion and options, and every interleaving of changes, moves between the trees, adds and removes',
 'The tests use one watch, two in one case, and remove once.',
 [INO,FG],[('ID/Listener inheritance','FileWatcherInotify::addWatch'),('sub watch removal','removeWatchLocked, WatcherInotify::inParentTree')],[],[LST])
p('C15','Symbolic link policy',
 'A directory reached only through a symbolic link is not watched recursively unless followSymlinks is on; when it is on, links whose target lies outside the directory that contains the link (or cannot be resolved) are followed only if allowOutOfScopeLinks is on, and a target that is already watched is not watched twice. Registration and processing terminate for every arrangement of links (cycles, self links, chains, dangling links), the link itself is reported by name like other entries by the native watcher, and changes through a followed link are reported.',
 ['inputs','configurations','histories'],'every small tree with symbolic links to directories, files, ancestors, siblings, outside and missing targets, present at start or created later, both backends, four option settings',
 'Two tests use one link each.',
 [INO,GEN,IMPL,FS],[('linkAllowed','FileWatcherImpl.cpp'),('getLinkRealPath','FileSystem.cpp')],[('mFollowSymlinks / mOutOfScopeLinks','options','efsw.hpp')],[LST,'addWatch return value'])
p('C16','Remote file systems are refused natively; the process is not disturbed',
 'Adding a watch with the platform watcher on a directory of a remote file system type fails with the remote error and registers nothing, and directories on local file systems are accepted (also if the type cannot be determined); the generic watcher accepts both. Sub-directories on remote file systems inside a local tree are not descended into. Determining this never leaves the process with a different working directory or an extra open descriptor.',
 ['inputs','configurations','fault_sequences'],'every file system type number, FUSE mounts listed or not listed as mount points, failing system calls, mixed trees',
 'No unit test has a remote or FUSE file system.',
 [PFS,FW,INO,GEN],[('isRemoteFS','FileSystemImpl.cpp'),('isLocalFUSEDirectory / findMountPoint','FileSystemImpl.cpp')],[],['addWatch return value','getcwd'])
p('C17','No callback after removal or destruction; both terminate',
 'Once removeWatch has returned on a thread other than the one delivering events, no callback for that watch starts or runs any more, and once the FileWatcher\'s destructor has returned no callback runs at all and the listener may be freed. removeWatch and the destructor return on every interleaving with event delivery, provided callbacks return (the destructor of a polling watcher may take one period).',
 ['schedules'],'every interleaving of removeWatch or destruction with the delivery thread, at every step of the processing of pending notifications',
 'One test removes a watch while the delivery thread is idle.',
 [INO,FG],[('mInitLock / mWatchesLock / mIsTakingAction','FileWatcherInotify.cpp'),('mWatchesLock','FileWatcherGeneric.cpp')],[('mInitOK','shutdown flag','FileWatcherImpl.hpp')],[LST])
p('C18','Calls from several threads are safe while events are delivered',
 'addWatch, removeWatch, directories, watch and the error log queries may be called from any threads concurrently with each other and with event delivery, and FileWatchers created and destroyed in several threads: no data race, use of freed memory, deadlock or lost registration results, and the outcome is that of some sequential order of the calls.',
 ['schedules','histories'],'every interleaving of small sets of calls from two or three threads with the delivery of pending events',
 'The tests call the API from one thread.',
 [INO,FG,LOG],[('locks','FileWatcherInotify.cpp, FileWatcherGeneric.cpp'),('global error state','Log.cpp')],[('LastError','process wide last error','Log.cpp')],[LST,'directories()'])
p('C19','Resources are released',
 'After removing a watch its kernel watch descriptors (one per directory in its tree) are released, watches on directories that left the tree are released once that has been processed, and destroying the FileWatcher releases every descriptor, kernel watch, thread and byte of memory it acquired, after any history of calls and file system changes, including failed calls and when watch() was never called.',
 ['histories','fault_sequences'],'every history of adds, removes, tree changes and processing, both backends, failing system calls included',
 'The tests do not observe descriptors, kernel watches or memory.',
 [INO,FG,PFS],[('mDeletedWatches','FileWatcherInotify.cpp'),('inotify_rm_watch','removeWatchLocked'),('closedir','FileSystemImpl.cpp')],[('mDeletedWatches','removed watches to be freed','FileWatcherInotify.hpp')],['/proc/self/fdinfo','allocator'])
p('C20','System failures degrade the service, they do not break it',
 'If the platform watcher cannot be initialised, the FileWatcher still works through the polling watcher. Any single failing system call during registration or processing of changes (and descriptors with numbers of 1024 and above) leads at most to the affected directory not being watched or an error code: never to a crash, a hang, memory corruption or loss of events of unaffected watches.',
 ['fault_sequences','configurations'],'every system call the library makes, failing at every occurrence with its documented errors, over generated histories',
 'The tests never make a system call fail.',
 [FW,INO,FI,PFS],[('fallback','FileWatcher::FileWatcher'),('error paths','FileWatcherInotify::addWatch')],[],['addWatch return value',LST])
p('C21','The C interface mirrors the C++ interface',
 'Every efsw_* function has the effect and the return value of the FileWatcher method it stands for: the same ids and error codes, the same options, flags and recursion, and callbacks receiving the same id, directory, name, action and old name, with the watcher handle and the user parameter that were passed when adding the watch.',
 ['histories','configurations'],'every sequence of C calls, run in parallel with the same sequence of C++ calls on an identical tree',
 'No unit test uses the C interface.',
 [CW,CAPI],[('Watcher_CAPI','FileWatcherCWrapper.cpp')],[('g_callbacks','callback objects','FileWatcherCWrapper.cpp')],['C callbacks','return values'])
p('C22','C interface: callbacks are routed and live as long as needed',
 'With any number of handles, callbacks, parameters and missed-event callbacks, each event reaches exactly the callbacks given for its watch, and stays that way while other watches or handles are added, removed or released. Releasing a handle at any moment outside of its own callbacks, also while events are being delivered, neither uses freed memory nor leaks, and other handles keep working.',
 ['histories','schedules'],'every sequence of create, addwatch with shared and different callbacks and parameters, events and release over several handles, and every interleaving of release with delivery',
 'No unit test uses the C interface.',
 [CW],[('find_callback / remove_callback','FileWatcherCWrapper.cpp'),('efsw_release','FileWatcherCWrapper.cpp')],[('g_callbacks','callback objects of all handles','FileWatcherCWrapper.cpp')],['C callbacks','allocator'])
p('C23','Unicode conversion is exact and memory safe',
 'Converting any sequence of Unicode scalar values between UTF-8, UTF-16, UTF-32 and wide strings yields the standard encoding and converting back yields the same text; decoding any byte sequence, valid or not, terminates, never reads or writes outside its buffers, and replaces or drops only what is malformed. For text they can represent, conversions to and from Latin-1 and ANSI are exact too, and string operations on decoded text agree with those of a standard string of code points.',
 ['inputs'],'all code points, all byte strings, all operation sequences on strings',
 'No unit test touches the conversion code.',
 [STR,UTF,'src/efsw/Utf.hpp','src/efsw/String.hpp'],[('Utf<8>/<16>/<32> Encode/Decode','Utf.inl'),('String','String.cpp')],[],['String::fromUtf8/toUtf8'])
p('C24','Names and directories are reported exactly',
 'For every file name the file system allows (any bytes, spaces, control characters, invalid UTF-8, up to 255 bytes, deep paths), events carry the exact name without any directory part and a directory that ends with a slash, and joining the two gives the path of the entry; old names are reported just as exactly. The directory of a watch is the given path (or the target of the given link) with one trailing slash.',
 ['inputs'],'all legal names and path shapes, in both backends, for every kind of event',
 'The tests use short ASCII names in one or two levels.',
 [INO,GEN,FS,STR],[('fileNameFromPath / dirAddSlashAtEnd','FileSystem.cpp'),('strStartsWith','String.cpp')],[],[LST])
p('C25','The last error is the last failure',
 'After a call fails, the last error code is the value that call returned and the last error text identifies the cause and the directory of that call; clearing resets both, successful calls do not set them, and the C functions return the same information.',
 ['histories','inputs'],'every sequence of failing and succeeding calls and clears',
 'No unit test reads the error log.',
 [LOG,CW],[('createLastError','Log.cpp')],[('LastError / LastErrorCode','process wide state','Log.cpp')],['Errors::Log','efsw_getlasterror'])
p('C26','The polling period is honoured',
 'The polling watcher examines the tree again and again, waiting the configured period (1000 ms unless given) between two examinations and never spinning, for every period value above zero; changing nothing else, a shorter period never loses events.',
 ['configurations','inputs'],'all period values from 1 ms to days, all clock readings, both constructors',
 'The tests wait two seconds with the default period.',
 [FG,SYS,FW],[('System::sleep','SystemImpl.cpp'),('run','FileWatcherGeneric.cpp')],[('mPollingFreq','period','FileWatcherGeneric.hpp')],['time spent blocked'])
p('C27','Callbacks come one at a time, from the thread that watch() starts',
 'All callbacks of one FileWatcher are made by one thread, the one that its first call of watch() started, and one after the other: never on a thread of the caller, never inside another callback, never before watch() was called. What changes between addWatch and watch() is delivered once watch() was called, and calling watch() again, also inside a callback, changes nothing: no second thread, no event twice, none lost.',
 ['histories','schedules'],'every order of adds, removals, changes of the tree and calls of watch(), with both back ends, recursive or not, with synthetic events, through C and C++',
 'The tests call watch() once, before or right after adding, and never look at which thread makes a callback or whether two overlap.',
 [INO,FG,FW],[('watch()','FileWatcherInotify::watch / FileWatcherGeneric::watch'),('run()','the delivery loops'),('first listing without events','DirWatcherGeneric / addWatch')],
 [('mThread','the delivery thread','FileWatcherInotify.hpp, FileWatcherGeneric.hpp')],[LST,'threads of the process'])
p('C28','Callbacks may use the library',
 'Inside a callback, addWatch, removeWatch (by id or path, also of the watch that is being reported), directories() and the error log work like anywhere else: same results, same registry, no deadlock and no use of freed memory. Once removeWatch has returned inside a callback, no callback is made for that watch any more, also not for the rest of the change being handled; a watch added inside a callback reports what changes from then on; and the events of the other watches, also those of the same batch, stay complete.',
 ['histories','schedules'],'every sequence of calls made inside callbacks, at every kind of event (created, moved within, between and out of watched directories, deleted, overflow, polled differences), together with calls outside and changes of the tree',
 'The unit tests only record events in their callbacks.',
 [INO,FG,GEN],[('checks after each callback','FileWatcherInotify::handleAction, addSyntheticEvents'),('deferred removal','FileWatcherGeneric::releaseWatch / run')],
 [('mDeletedWatches','removed watches that are freed later','FileWatcherInotify.hpp'),('mPolled / mPolledRemoved','the watch that is being examined','FileWatcherGeneric.hpp')],[LST,'return values','directories()'])
p('C29','FileWatchers do not influence each other',
 'The results of the calls made to one FileWatcher and the events it delivers (which, in which order, for which watch) are the same whatever other FileWatchers exist in the process: native or polling, created before or after it, through C or C++, with the same or other options, on the same, overlapping or other directories, with any calls made to them, including their destruction.',
 ['histories','configurations'],'every history of calls to several FileWatchers and of changes of their trees',
 'Nearly all tests have one FileWatcher at a time.',
 [INO,FG,FW,CW],[('all state belongs to the object','FileWatcherImpl and its subclasses')],[('g_callbacks','the one list shared by all handles','FileWatcherCWrapper.cpp')],[LST,'return values'])
p('C30','Debug and verbose builds behave like the release build',
 'The library built with DEBUG (assertions) and EFSW_VERBOSE (messages) builds and does the same as without them: for every history of calls and changes of the tree, with any path, the results, the events and the error texts are equal, no assertion fails, and what is printed neither needs nor changes anything (no freed object, no path taken as a format, no length that is too large).',
 ['configurations','histories','inputs'],'every history of calls and changes, every path, failing system calls, both back ends',
 'The tests run one build, and their paths are short and plain.',
 [LOG,INO,FW,GEN,'src/efsw/Debug.cpp','src/efsw/Debug.hpp'],[('efPRINT / efREPORT_ASSERT','Debug.cpp'),('efDEBUG( ... )','Log.cpp, FileWatcher.cpp, FileWatcherInotify.cpp, SystemImpl.cpp'),('efASSERT( ... )','DirWatcherGeneric.cpp')],[],[LST,'return values','efsw_getlasterror'])
p('C31','Watching leaves the tree and the process as they are',
 'Calls and the processing of events change nothing but the library: nothing in the file system is created, written, read, opened for waiting (named pipes, sockets) or touched (contents, times, modes, owners and links stay as they were), nothing is printed, and working directory, umask, signal handling, locale, environment, identity, timers, limits (except the number of open files, which is raised) and child processes of the process stay as they were. While nothing happens the delivery thread sleeps.',
 ['histories','inputs'],'every history of calls, failing calls and changes, with all kinds of files, both back ends',
 'The tests look at events only.',
 [INO,FG,GEN,FS,'src/efsw/FileInfo.cpp',SYS,LOG],[('waits','FileWatcherInotify::run, System::sleep'),('isReadable / getInfo','FileInfo.cpp'),('isRemoteFS','FileSystemImpl.cpp'),('maxFD','SystemImpl.cpp')],[('process state','working directory, umask, signals, limits','the process')],['state of the tree','/proc/self/status','standard output and error'])
with open(R,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
