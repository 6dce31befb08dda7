From 674f8fb29c2cc137b53ecdd2103ae163fe61ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 01/32] fix: pair inotify moves by cookie and report moves out
 of the scope in order

The destination of a rename was taken for a rename whenever the directory had
any unfinished move, moves out of the watched scope were reported only after
everything else that was read with them, and a rename whose two events were
read separately was reported as a Delete and an Add.
---
 src/efsw/FileWatcherInotify.cpp | 226 +++++++++-----------------------
 src/efsw/FileWatcherInotify.hpp |   4 +-
 2 files changed, 66 insertions(+), 164 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f5fde4..e7fcf82 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -202,15 +202,6 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	WatcherInotify* watch = iter->second;
 
-	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ++itm ) {
-		if ( itm->first == watch ) {
-			mMovedOutsideWatches.erase( itm );
-			break;
-		}
-	}
-
 	if ( watch->Recursive && NULL == watch->Parent ) {
 		WatchMap::iterator it = mWatches.begin();
 		std::vector<WatchID> eraseWatches;
@@ -303,7 +294,6 @@ void FileWatcherInotify::run() {
 	WatcherInotify* curWatcher = NULL;
 	WatcherInotify* currentMoveFrom = NULL;
 	uint32_t currentMoveCookie = -1;
-	bool lastWasMovedFrom = false;
 	std::string prevOldFileName;
 
 	do {
@@ -326,6 +316,14 @@ void FileWatcherInotify::run() {
 					struct inotify_event* pevent = (struct inotify_event*)&buff[i];
 
 					{
+						/// The two events of a rename come one after the other, so if this one is
+						/// not the destination of the pending move, the file was moved outside
+						if ( currentMoveFrom && !( ( pevent->mask & IN_MOVED_TO ) &&
+												   pevent->cookie == currentMoveCookie ) ) {
+							handleMovedOutside( currentMoveFrom, prevOldFileName );
+							currentMoveFrom = NULL;
+						}
+
 						curWatcher = NULL;
 
 						{
@@ -340,14 +338,18 @@ void FileWatcherInotify::run() {
 						if ( curWatcher ) {
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
-							// Check if this is the destination of a move
-							if ( ( pevent->mask & IN_MOVED_TO ) && currentMoveFrom &&
-								 pevent->cookie == currentMoveCookie ) {
-
+							if ( pevent->mask & IN_MOVED_FROM ) {
+								/// Keep track of the IN_MOVED_FROM events to know
+								/// if the IN_MOVED_TO event is also fired
+								currentMoveFrom = curWatcher;
+								currentMoveCookie = pevent->cookie;
+								prevOldFileName = std::string( (char*)pevent->name );
+							} else if ( currentMoveFrom ) {
+								// Destination of a move.
 								// If the move happened between TWO DIFFERENT watched directories
 								if ( curWatcher != currentMoveFrom ) {
-									// We need to simulate a delete event, the IN_MOVED_TO will
-									// generate an add event after
+									// We need to simulate a delete event, the IN_MOVED_TO already
+									// generated an add event
 									handleAction( currentMoveFrom, currentMoveFrom->OldFileName,
 												  IN_DELETE );
 
@@ -361,178 +363,76 @@ void FileWatcherInotify::run() {
 
 								/// Pair processed successfully
 								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
-							} else if ( pevent->mask & IN_MOVED_FROM ) {
-								// Previous event was moved from and current event is moved from
-								// Treat it as a DELETE or moved outside watches
-								if ( lastWasMovedFrom && currentMoveFrom ) {
-									mMovedOutsideWatches.push_back(
-										std::make_pair( currentMoveFrom, prevOldFileName ) );
-								}
-
-								currentMoveFrom = curWatcher;
-								currentMoveCookie = pevent->cookie;
-							} else {
-								/// Keep track of the IN_MOVED_FROM events to know
-								/// if the IN_MOVED_TO event is also fired
-								if ( currentMoveFrom ) {
-									if ( std::find_if( mMovedOutsideWatches.begin(),
-													   mMovedOutsideWatches.end(),
-													   [currentMoveFrom](
-														   const std::pair<WatcherInotify*,
-																		   std::string>& moved ) {
-														   return moved.first == currentMoveFrom;
-													   } ) == mMovedOutsideWatches.end() ) {
-										mMovedOutsideWatches.push_back(
-											std::make_pair( currentMoveFrom, prevOldFileName ) );
-									} else {
-										efDEBUG( "Info: Tried to add watch to the moved outside "
-												 "watches but it was already there, Watch ID: %d - "
-												 "Address: %p - Path: \"%s\" - prevOldFileName: "
-												 "\"%s\"\n",
-												 pevent->wd, currentMoveFrom,
-												 currentMoveFrom->Directory.c_str(),
-												 prevOldFileName.c_str() );
-									}
-								}
-
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
 							}
+						} else if ( currentMoveFrom ) {
+							/// Moved to a directory that is not watched anymore
+							handleMovedOutside( currentMoveFrom, prevOldFileName );
+							currentMoveFrom = NULL;
 						}
-
-						lastWasMovedFrom = ( pevent->mask & IN_MOVED_FROM ) != 0;
-						if ( pevent->mask & IN_MOVED_FROM )
-							prevOldFileName = std::string( (char*)pevent->name );
 					}
 
 					i += sizeof( struct inotify_event ) + pevent->len;
 				}
 			}
-
-			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
-			// Treat it as a DELETE or moved outside watches
-			if ( lastWasMovedFrom && currentMoveFrom ) {
-				mMovedOutsideWatches.push_back(
-					std::make_pair( currentMoveFrom, prevOldFileName ) );
-				currentMoveFrom = NULL;
-				lastWasMovedFrom = false;
-				prevOldFileName.clear();
-			}
-		} else {
+		} else if ( currentMoveFrom ) {
 			// Here means no event received
 			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
-			if ( currentMoveFrom ) {
-				if ( std::find_if(
-						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
-						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
-							 return moved.first == currentMoveFrom;
-						 } ) == mMovedOutsideWatches.end() &&
-					 !currentMoveFrom->OldFileName.empty() ) {
-					mMovedOutsideWatches.push_back(
-						std::make_pair( currentMoveFrom, currentMoveFrom->OldFileName ) );
-				} else {
-					efDEBUG( "Warning: Tried to add watch to the moved outside "
-							 "watches but it was already there, Watch Address: %p\n",
-							 currentMoveFrom );
-				}
-			}
-
+			handleMovedOutside( currentMoveFrom, prevOldFileName );
 			currentMoveFrom = NULL;
-			currentMoveCookie = -1;
 		}
 
-		if ( !mMovedOutsideWatches.empty() ) {
-			// We need to make a copy since the element mMovedOutsideWatches could be modified
-			// during the iteration.
-			std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches(
-				mMovedOutsideWatches );
-
-			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
-			/// folder
-			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
-					  movedOutsideWatches.begin();
-				  it != movedOutsideWatches.end(); ++it ) {
-
-				// Skip if the watch has already being removed
-				if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
-					bool found = false;
-					for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-							  mMovedOutsideWatches.begin();
-						  mMovedOutsideWatches.end() != itm; ++itm ) {
-						if ( itm->first == it->first ) {
-							found = true;
-							break;
-						}
-					}
-					if ( !found )
-						continue;
+		{
+			Lock lock( mWatchesLock );
+			if ( !mDeletedWatches.empty() ) {
+				for ( auto w : mDeletedWatches ) {
+					if ( w == currentMoveFrom )
+						currentMoveFrom = NULL;
+					efSAFE_DELETE( w );
 				}
+				mDeletedWatches.clear();
+			}
+		}
+	} while ( mInitOK );
 
-				Watcher* watch = it->first;
-
-				// Clear the stale OldFileName.
-				// Since this move is considered complete (moved outside),
-				// the watcher should not be waiting for a pair anymore.
-				watch->OldFileName = "";
+	delete[] buff;
+}
 
-				const std::string& oldFileName = it->second;
+void FileWatcherInotify::handleMovedOutside( WatcherInotify* watch,
+											 const std::string& oldFileName ) {
+	// Clear the stale OldFileName.
+	// Since this move is considered complete (moved outside),
+	// the watcher should not be waiting for a pair anymore.
+	watch->OldFileName = "";
 
-				/// Check if the file move was a folder already being watched
-				std::vector<Watcher*> eraseWatches;
+	/// Check if the file move was a folder already being watched
+	std::vector<std::string> eraseWatches;
 
-				{
-					Lock lock( mWatchesLock );
+	{
+		Lock lock( mWatchesLock );
 
-					for ( auto wit : mWatches ) {
-						Watcher* oldWatch = wit.second;
+		std::string movedDir( watch->Directory + oldFileName + "/" );
 
-						if ( oldWatch != watch &&
-							 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
-														  oldWatch->Directory ) ) {
-							eraseWatches.push_back( oldWatch );
-						}
-					}
-				}
+		for ( auto wit : mWatches ) {
+			Watcher* oldWatch = wit.second;
 
-				/// Remove invalid watches
-				std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
-								  []( const Watcher* left, const Watcher* right ) {
-									  return left->Directory < right->Directory;
-								  } );
-
-				if ( eraseWatches.empty() ) {
-					handleAction( watch, oldFileName, IN_DELETE );
-				} else {
-					for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-						  eit != eraseWatches.rend(); ++eit ) {
-						Watcher* rmWatch = *eit;
-
-						/// Create Delete event for removed watches that have been moved too
-						if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-							handleAction( cntWatch,
-										  FileSystem::fileNameFromPath( rmWatch->Directory ),
-										  IN_DELETE );
-						}
-					}
-				}
+			if ( oldWatch != watch && oldWatch->Directory != movedDir &&
+				 -1 != String::strStartsWith( movedDir, oldWatch->Directory ) ) {
+				eraseWatches.push_back( oldWatch->Directory );
 			}
-
-			mMovedOutsideWatches.clear();
 		}
+	}
 
-		{
-			Lock lock( mWatchesLock );
-			if ( !mDeletedWatches.empty() ) {
-				for ( auto w : mDeletedWatches ) {
-					efSAFE_DELETE( w );
-				}
-				mDeletedWatches.clear();
-			}
+	/// Remove invalid watches, from the deepest to the moved one
+	std::sort( eraseWatches.begin(), eraseWatches.end() );
+
+	for ( auto eit = eraseWatches.rbegin(); eit != eraseWatches.rend(); ++eit ) {
+		/// Create Delete event for removed watches that have been moved too
+		if ( Watcher* cntWatch = watcherContainsDirectory( *eit ) ) {
+			handleAction( cntWatch, FileSystem::fileNameFromPath( *eit ), IN_DELETE );
 		}
-	} while ( mInitOK );
+	}
 
-	delete[] buff;
+	handleAction( watch, oldFileName, IN_DELETE );
 }
 
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 3b58a21..a6ee9e6 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -61,7 +61,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
 	bool mIsTakingAction;
-	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
@@ -75,6 +74,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	/// The file was moved to a directory that is not being watched
+	void handleMovedOutside( WatcherInotify* watch, const std::string& oldFileName );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
-- 
2.43.0


From 7e79523a24ba6cd39393476c68a89b623f3a7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 02/32] fix: keep inotify watches with their directories when
 events are handled late

By the time an event is handled the path it names may already belong to
something else. Remember the position in the event stream at which a watch was
added so that older events don't relabel or remove it, relabel the watches of a
directory moved between two watched directories instead of searching them by
path, remove whole trees that were deleted or replaced, and look again for
directories found before the event of their own move.
---
 src/efsw/FileWatcherInotify.cpp | 234 ++++++++++++++++++++++++++------
 src/efsw/FileWatcherInotify.hpp |  29 +++-
 src/efsw/WatcherInotify.hpp     |   6 +
 3 files changed, 229 insertions(+), 40 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index e7fcf82..8d53786 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -8,6 +8,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <sys/inotify.h>
+#include <sys/ioctl.h>
 #include <sys/select.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -23,7 +24,12 @@
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
-	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ), mIsTakingAction( false ) {
+	FileWatcherImpl( parent ),
+	mFD( -1 ),
+	mThread( NULL ),
+	mIsTakingAction( false ),
+	mStreamRead( 0 ),
+	mStreamPos( 0 ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -118,6 +124,11 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		}
 	}
 
+	/// The path is right after all the events that are already waiting
+	int pending = 0;
+	ioctl( mFD, FIONREAD, &pending );
+	Uint64 since = mStreamRead + pending;
+
 	int wd = inotify_add_watch( mFD, dir.c_str(),
 								IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM |
 									IN_DELETE | IN_MODIFY );
@@ -137,8 +148,20 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	{
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
-		if ( watchIdExists != mWatches.end() )
+		if ( watchIdExists != mWatches.end() ) {
+			// The watches of the user have precedence
+			if ( NULL != parent && ( NULL == watchIdExists->second->Parent ||
+									 watchIdExists->second->Directory == dir ) )
+				return wd;
+
+			// Its own move event is still to come, so check it again then
+			if ( fromInternalEvent && since > mStreamPos ) {
+				mPendingChecks.push_back( std::make_pair( since, dir ) );
+				return wd;
+			}
+
 			removeWatchLocked( wd, true );
+		}
 	}
 
 	efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
@@ -151,6 +174,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	pWatch->Recursive = recursive;
 	pWatch->Parent = parent;
 	pWatch->syntheticEvents = syntheticEvents;
+	pWatch->Since = since;
 
 	{
 		Lock lock( mWatchesLock );
@@ -167,14 +191,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		std::map<std::string, FileInfo> files = FileSystem::filesInfoFromPath( pWatch->Directory );
 
 		if ( fromInternalEvent && parent != NULL && syntheticEvents ) {
-			for ( const auto& file : files ) {
-				if ( file.second.isRegularFile() || file.second.isDirectory() ||
-					 file.second.isLink() ) {
-					pWatch->Listener->handleFileAction(
-						pWatch->ID, pWatch->Directory,
-						FileSystem::fileNameFromPath( file.second.Filepath ), Actions::Add );
-				}
-			}
+			addSyntheticEvents( pWatch, pWatch->Directory, files );
+
+			/// Moved while its files were being listed, they will be reported in the new path
+			pWatch->Unreported = FileInfo( pWatch->Directory ).Inode != fi.Inode;
 		}
 
 		std::map<std::string, FileInfo>::iterator it = files.begin();
@@ -195,6 +215,17 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	return wd;
 }
 
+void FileWatcherInotify::addSyntheticEvents( WatcherInotify* watch, const std::string& directory,
+											const FileInfoMap& files ) {
+	for ( const auto& file : files ) {
+		if ( file.second.isRegularFile() || file.second.isDirectory() || file.second.isLink() ) {
+			watch->Listener->handleFileAction(
+				watch->ID, directory, FileSystem::fileNameFromPath( file.second.Filepath ),
+				Actions::Add );
+		}
+	}
+}
+
 void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRemove ) {
 	WatchMap::iterator iter = mWatches.find( watchid );
 	if ( iter == mWatches.end() )
@@ -207,7 +238,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		std::vector<WatchID> eraseWatches;
 
 		for ( ; it != mWatches.end(); ++it )
-			if ( it->second != watch && it->second->inParentTree( watch ) )
+			if ( it->second != watch && it->second->ID == watch->ID )
 				eraseWatches.push_back( it->second->InotifyID );
 
 		for ( std::vector<WatchID>::iterator eit = eraseWatches.begin(); eit != eraseWatches.end();
@@ -307,7 +338,16 @@ void FileWatcherInotify::run() {
 		if ( select( FD_SETSIZE, &rfds, NULL, NULL, &timeout ) > 0 ) {
 			ssize_t len;
 
-			len = read( mFD, buff, BUFF_SIZE );
+			{
+				Lock initLock( mInitLock );
+
+				mStreamPos = mStreamRead;
+
+				len = read( mFD, buff, BUFF_SIZE );
+
+				if ( len > 0 )
+					mStreamRead += len;
+			}
 
 			if ( len != -1 ) {
 				ssize_t i = 0;
@@ -324,6 +364,11 @@ void FileWatcherInotify::run() {
 							currentMoveFrom = NULL;
 						}
 
+						if ( !currentMoveFrom )
+							handlePendingChecks();
+
+						mStreamPos += sizeof( struct inotify_event ) + pevent->len;
+
 						curWatcher = NULL;
 
 						{
@@ -336,6 +381,10 @@ void FileWatcherInotify::run() {
 						}
 
 						if ( curWatcher ) {
+							/// The move happened between TWO DIFFERENT watched directories
+							if ( currentMoveFrom && curWatcher != currentMoveFrom )
+								mMoveSource = currentMoveFrom->Directory + prevOldFileName + "/";
+
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
 							if ( pevent->mask & IN_MOVED_FROM ) {
@@ -356,6 +405,7 @@ void FileWatcherInotify::run() {
 									// Clear the state on the source watcher so it doesn't
 									// get processed again or stuck with stale data.
 									currentMoveFrom->OldFileName = "";
+									mMoveSource = "";
 								}
 								// Else: If curWatcher == currentMoveFrom, it's a local rename.
 								// handleAction() above already detected the OldFileName and
@@ -381,6 +431,9 @@ void FileWatcherInotify::run() {
 			currentMoveFrom = NULL;
 		}
 
+		if ( !currentMoveFrom )
+			handlePendingChecks();
+
 		{
 			Lock lock( mWatchesLock );
 			if ( !mDeletedWatches.empty() ) {
@@ -416,6 +469,7 @@ void FileWatcherInotify::handleMovedOutside( WatcherInotify* watch,
 			Watcher* oldWatch = wit.second;
 
 			if ( oldWatch != watch && oldWatch->Directory != movedDir &&
+				 wit.second->Since < mStreamPos &&
 				 -1 != String::strStartsWith( movedDir, oldWatch->Directory ) ) {
 				eraseWatches.push_back( oldWatch->Directory );
 			}
@@ -435,12 +489,12 @@ void FileWatcherInotify::handleMovedOutside( WatcherInotify* watch,
 	handleAction( watch, oldFileName, IN_DELETE );
 }
 
-void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
+void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath, bool renamed ) {
 	FileSystem::dirAddSlashAtEnd( fpath );
 
 	/// If the watcher is recursive, checks if the new file is a folder, and creates a watcher
-	if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
-		bool found = false;
+	if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !reachedByLink( watch ) ) {
+		Watcher* found = NULL;
 
 		{
 			Lock lock( mWatchesLock );
@@ -448,20 +502,116 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 			/// First check if exists
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
 				if ( it->second->Directory == fpath ) {
-					found = true;
+					found = it->second;
 					break;
 				}
 			}
 		}
 
-		if ( !found ) {
+		if ( !found || renamed ) {
 			WatcherInotify* iWatch = static_cast<WatcherInotify*>( watch );
-			addWatch( fpath, watch->Listener, watch->Recursive, iWatch->syntheticEvents,
-					  static_cast<WatcherInotify*>( watch ), true );
+			WatchID wd = addWatch( fpath, watch->Listener, watch->Recursive,
+								   iWatch->syntheticEvents, iWatch, true );
+
+			/// Directories made just before it was renamed couldn't be found by their path then
+			if ( found && wd == static_cast<WatcherInotify*>( found )->InotifyID ) {
+				FileInfoMap files = FileSystem::filesInfoFromPath( fpath );
+
+				if ( static_cast<WatcherInotify*>( found )->Unreported ) {
+					static_cast<WatcherInotify*>( found )->Unreported = false;
+					addSyntheticEvents( iWatch, fpath, files );
+				}
+
+				for ( FileInfoMap::iterator it = files.begin(); it != files.end(); ++it ) {
+					if ( it->second.isDirectory() )
+						checkForNewWatcher( found, it->second.Filepath, true );
+				}
+			}
 		}
 	}
 }
 
+bool FileWatcherInotify::reachedByLink( Watcher* watch ) {
+	Lock lock( mWatchesLock );
+	WatchMap::iterator root = mWatches.find( watch->ID );
+
+	if ( root == mWatches.end() )
+		return false;
+
+	const std::string& rootDir = root->second->Directory;
+
+	if ( -1 == String::strStartsWith( rootDir, watch->Directory ) )
+		return false;
+
+	for ( size_t pos = rootDir.size(); pos < watch->Directory.size(); pos++ ) {
+		if ( watch->Directory[pos] == '/' && FileInfo::isLink( watch->Directory.substr( 0, pos ) ) )
+			return true;
+	}
+
+	return false;
+}
+
+void FileWatcherInotify::moveTree( WatcherInotify* watch, const std::string& opath,
+								   const std::string& fpath ) {
+	Lock lock( mWatchesLock );
+
+	/// A directory that was there before has been replaced
+	removeTreeLocked( fpath );
+
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		WatcherInotify* moved = it->second;
+
+		/// A watch added after this happened already has the path of its directory
+		if ( moved->Since >= mStreamPos || NULL == moved->Parent )
+			continue;
+
+		if ( moved->Directory == opath ) {
+			moved->Directory = fpath;
+			moved->DirInfo = FileInfo( fpath );
+			moved->Parent = watch;
+		} else if ( -1 != String::strStartsWith( opath, moved->Directory ) ) {
+			moved->Directory = fpath + moved->Directory.substr( opath.size() );
+			moved->DirInfo.Filepath = moved->Directory;
+		} else
+			continue;
+
+		/// Moved from another directory, its files are new in the path that it has now
+		if ( !mMoveSource.empty() )
+			moved->Unreported = watch->syntheticEvents;
+
+		/// Now it belongs to the watch of the directory where it was moved to
+		moved->ID = watch->ID;
+		moved->Listener = watch->Listener;
+		moved->syntheticEvents = watch->syntheticEvents;
+	}
+}
+
+void FileWatcherInotify::handlePendingChecks() {
+	while ( !mPendingChecks.empty() && mPendingChecks.front().first <= mStreamPos ) {
+		std::string path( mPendingChecks.front().second );
+
+		mPendingChecks.pop_front();
+
+		Lock initLock( mInitLock );
+
+		if ( Watcher* watch = watcherContainsDirectory( path ) )
+			checkForNewWatcher( watch, path );
+	}
+}
+
+void FileWatcherInotify::removeTreeLocked( const std::string& dir ) {
+	std::vector<WatchID> eraseWatches;
+
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		if ( NULL != it->second->Parent && it->second->Since < mStreamPos &&
+			 -1 != String::strStartsWith( dir, it->second->Directory ) )
+			eraseWatches.push_back( it->first );
+	}
+
+	for ( WatchID id : eraseWatches )
+		removeWatchLocked( id );
+}
+
 void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filename,
 									   unsigned long action, const std::string& ) {
 	if ( !watch || !watch->Listener || !mInitOK ) {
@@ -472,7 +622,13 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 	std::string fpath( watch->Directory + filename );
 
-	if ( IN_Q_OVERFLOW & action ) {
+	if ( IN_IGNORED & action ) {
+		/// The directory was deleted, even if nothing else was known about it
+		if ( NULL != static_cast<WatcherInotify*>( watch )->Parent ) {
+			Lock lock( mWatchesLock );
+			removeWatchLocked( static_cast<WatcherInotify*>( watch )->InotifyID, true );
+		}
+	} else if ( IN_Q_OVERFLOW & action ) {
 		watch->Listener->handleMissedFileActions( watch->ID, watch->Directory );
 	} else if ( ( IN_CLOSE_WRITE & action ) || ( IN_MODIFY & action ) ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
@@ -487,36 +643,41 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Modified );
 
-			checkForNewWatcher( watch, fpath );
+			if ( watch->Recursive && ( IN_ISDIR & action ) && !mMoveSource.empty() )
+				moveTree( static_cast<WatcherInotify*>( watch ), mMoveSource, fpath + "/" );
+			else if ( watch->Recursive ) {
+				/// A directory that was there before has been replaced
+				Lock lock( mWatchesLock );
+				removeTreeLocked( fpath + "/" );
+			}
+
+			if ( ( IN_ISDIR & action ) || FileInfo::isLink( fpath ) )
+				checkForNewWatcher( watch, fpath, true );
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
 		}
 
-		if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !watch->OldFileName.empty() ) {
+		/// Depends on what was moved: by now something else could be there
+		if ( watch->Recursive && ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
 			/// Update the new directory path
 			std::string opath( watch->Directory + watch->OldFileName );
 			FileSystem::dirAddSlashAtEnd( opath );
 			FileSystem::dirAddSlashAtEnd( fpath );
 
-			Lock lock( mWatchesLock );
+			moveTree( static_cast<WatcherInotify*>( watch ), opath, fpath );
 
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == opath ) {
-					it->second->Directory = fpath;
-					it->second->DirInfo = FileInfo( fpath );
-				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
-					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
-					it->second->DirInfo.Filepath = it->second->Directory;
-				}
-			}
+			/// It could have been moved before it was possible to watch it
+			checkForNewWatcher( watch, fpath, true );
 		}
 
 		watch->OldFileName = "";
 	} else if ( IN_CREATE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Add );
 
-		checkForNewWatcher( watch, fpath );
+		/// What is there by now could be something else
+		if ( ( IN_ISDIR & action ) || FileInfo::isLink( fpath ) )
+			checkForNewWatcher( watch, fpath );
 	} else if ( IN_MOVED_FROM & action ) {
 		watch->OldFileName = filename;
 	} else if ( IN_DELETE & action ) {
@@ -528,12 +689,7 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		if ( watch->Recursive ) {
 			Lock l( mWatchesLock );
 
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					removeWatchLocked( it->second->InotifyID );
-					break;
-				}
-			}
+			removeTreeLocked( fpath );
 		}
 	}
 	mIsTakingAction = false;
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index a6ee9e6..b09765d 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -6,6 +6,7 @@
 #if EFSW_PLATFORM == EFSW_PLATFORM_INOTIFY
 
 #include <efsw/WatcherInotify.hpp>
+#include <deque>
 #include <unordered_map>
 #include <vector>
 
@@ -63,6 +64,16 @@ class FileWatcherInotify : public FileWatcherImpl {
 	bool mIsTakingAction;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
+	/// Bytes of events read so far, and how many of them were handled
+	Uint64 mStreamRead;
+	Uint64 mStreamPos;
+
+	/// Directory being moved between two watched directories
+	std::string mMoveSource;
+
+	/// Directories to check again when all the events until that position were handled
+	std::deque<std::pair<Uint64, std::string>> mPendingChecks;
+
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
 					  bool syntheticEvents, WatcherInotify* parent = NULL,
 					  bool fromInternalEvent = false );
@@ -77,7 +88,23 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// The file was moved to a directory that is not being watched
 	void handleMovedOutside( WatcherInotify* watch, const std::string& oldFileName );
 
-	void checkForNewWatcher( Watcher* watch, std::string fpath );
+	void checkForNewWatcher( Watcher* watch, std::string fpath, bool renamed = false );
+
+	/// Reports the files that were already there
+	void addSyntheticEvents( WatcherInotify* watch, const std::string& directory,
+							 const FileInfoMap& files );
+
+	/// A directory moved away could have been replaced with a link
+	bool reachedByLink( Watcher* watch );
+
+	/// Updates the watches of a directory moved to a directory that is being watched
+	void moveTree( WatcherInotify* watch, const std::string& opath, const std::string& fpath );
+
+	/// Checks again the directories that were found before the event of their move
+	void handlePendingChecks();
+
+	/// Removes the watches of a directory that is gone and of its sub-directories
+	void removeTreeLocked( const std::string& dir );
 
 	Watcher* watcherContainsDirectory( std::string dir );
 };
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index ec55ed0..638b51d 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -17,6 +17,12 @@ class WatcherInotify : public Watcher {
 
 	FileInfo DirInfo;
 	bool syntheticEvents{ false };
+
+	/// Position in the stream of events where it was added, older events don't affect it
+	Uint64 Since{ 0 };
+
+	/// Its files still have to be reported with synthetic events
+	bool Unreported{ false };
 };
 
 } // namespace efsw
-- 
2.43.0


From 7f6dafb96dc75559a64cfbbb08b4e6e4e045b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 03/32] fix: make removal and destruction of inotify watches
 safe while events are handled

The watch is checked again after taking the lock and after each callback, the
destructor ends the thread before it takes the locks, only the watches added by
the user can be removed by the user and they are not taken over by the
recursion of another one, the same directory reached by another path is
repeated, sub-directories that can't be watched don't set the last error, and
the thread waits with poll since select can't handle descriptors from
FD_SETSIZE on.
---
 src/efsw/FileWatcherInotify.cpp | 109 ++++++++++++++++++++------------
 src/efsw/FileWatcherInotify.hpp |   3 +-
 2 files changed, 70 insertions(+), 42 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 8d53786..ec4b645 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -5,11 +5,11 @@
 
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 #include <sys/inotify.h>
 #include <sys/ioctl.h>
-#include <sys/select.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -27,7 +27,6 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 	FileWatcherImpl( parent ),
 	mFD( -1 ),
 	mThread( NULL ),
-	mIsTakingAction( false ),
 	mStreamRead( 0 ),
 	mStreamPos( 0 ) {
 	mFD = inotify_init();
@@ -41,17 +40,11 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 
 FileWatcherInotify::~FileWatcherInotify() {
 	mInitOK = false;
-	// There is deadlock when release FileWatcherInotify instance since its handAction
-	// function is still running and hangs in requiring lock without init lock captured.
-	while ( mIsTakingAction ) {
-		// It'd use condition-wait instead of sleep. Actually efsw has no such
-		// implementation so we just skip and sleep while for that to avoid deadlock.
-		usleep( 1000 );
-	};
-	Lock initLock( mInitLock );
 
+	/// The thread needs the locks to finish what it's doing
 	efSAFE_DELETE( mThread );
 
+	Lock initLock( mInitLock );
 	Lock l( mWatchesLock );
 	Lock l2( mRealWatchesLock );
 
@@ -87,6 +80,11 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchListener* watcher,
 									  bool recursive, bool syntheticEvents, WatcherInotify* parent,
 									  bool fromInternalEvent ) {
+	/// The sub-directories that can't be watched aren't errors of the user
+	auto error = [parent]( Error err, const std::string& log ) -> WatchID {
+		return NULL == parent ? Errors::Log::createLastError( err, log ) : err;
+	};
+
 	std::string dir( directory );
 
 	FileSystem::dirAddSlashAtEnd( dir );
@@ -94,13 +92,13 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() ) {
-		return Errors::Log::createLastError( Errors::FileNotFound, dir );
+		return error( Errors::FileNotFound, dir );
 	} else if ( !fi.isReadable() ) {
-		return Errors::Log::createLastError( Errors::FileNotReadable, dir );
+		return error( Errors::FileNotReadable, dir );
 	} else if ( pathInWatches( dir ) ) {
-		return Errors::Log::createLastError( Errors::FileRepeated, directory );
+		return error( Errors::FileRepeated, directory );
 	} else if ( NULL != parent && FileSystem::isRemoteFS( dir ) ) {
-		return Errors::Log::createLastError( Errors::FileRemote, dir );
+		return error( Errors::FileRemote, dir );
 	}
 
 	/// Check if the directory is a symbolic link
@@ -110,15 +108,15 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	if ( "" != link ) {
 		/// Avoid adding symlinks directories if it's now enabled
 		if ( NULL != parent && !mFileWatcher->followSymlinks() ) {
-			return Errors::Log::createLastError( Errors::FileOutOfScope, dir );
+			return error( Errors::FileOutOfScope, dir );
 		}
 
 		/// If it's a symlink check if the realpath exists as a watcher, or
 		/// if the path is outside the current dir
 		if ( pathInWatches( link ) ) {
-			return Errors::Log::createLastError( Errors::FileRepeated, directory );
+			return error( Errors::FileRepeated, directory );
 		} else if ( !linkAllowed( curPath, link ) ) {
-			return Errors::Log::createLastError( Errors::FileOutOfScope, dir );
+			return error( Errors::FileOutOfScope, dir );
 		} else {
 			dir = link;
 		}
@@ -135,10 +133,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 
 	if ( wd < 0 ) {
 		if ( errno == ENOENT ) {
-			return Errors::Log::createLastError( Errors::FileNotFound, dir );
+			return error( Errors::FileNotFound, dir );
 		} else {
-			return Errors::Log::createLastError( Errors::Unspecified,
-												 std::string( strerror( errno ) ) );
+			return error( Errors::Unspecified, std::string( strerror( errno ) ) );
 		}
 	}
 
@@ -149,6 +146,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
 		if ( watchIdExists != mWatches.end() ) {
+			// The same directory, by another path
+			if ( NULL == parent && NULL == watchIdExists->second->Parent )
+				return error( Errors::FileRepeated, directory );
+
 			// The watches of the user have precedence
 			if ( NULL != parent && ( NULL == watchIdExists->second->Parent ||
 									 watchIdExists->second->Directory == dir ) )
@@ -179,12 +180,13 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	{
 		Lock lock( mWatchesLock );
 		mWatches[wd] = pWatch;
-		mWatchesRef[pWatch->Directory] = wd;
-	}
 
-	if ( NULL == pWatch->Parent ) {
-		Lock l( mRealWatchesLock );
-		mRealWatches[pWatch->InotifyID] = pWatch;
+		if ( NULL == pWatch->Parent ) {
+			mWatchesRef[pWatch->Directory] = wd;
+
+			Lock l( mRealWatchesLock );
+			mRealWatches[pWatch->InotifyID] = pWatch;
+		}
 	}
 
 	if ( pWatch->Recursive ) {
@@ -200,7 +202,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		std::map<std::string, FileInfo>::iterator it = files.begin();
 
 		for ( ; it != files.end(); ++it ) {
-			if ( !mInitOK )
+			if ( !mInitOK || !isRegistered( pWatch ) )
 				break;
 
 			const FileInfo& cfi = it->second;
@@ -218,6 +220,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 void FileWatcherInotify::addSyntheticEvents( WatcherInotify* watch, const std::string& directory,
 											const FileInfoMap& files ) {
 	for ( const auto& file : files ) {
+		if ( !isRegistered( watch ) )
+			return;
+
 		if ( file.second.isRegularFile() || file.second.isDirectory() || file.second.isLink() ) {
 			watch->Listener->handleFileAction(
 				watch->ID, directory, FileSystem::fileNameFromPath( file.second.Filepath ),
@@ -243,14 +248,16 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 		for ( std::vector<WatchID>::iterator eit = eraseWatches.begin(); eit != eraseWatches.end();
 			  ++eit ) {
-			removeWatch( *eit );
+			removeWatchLocked( *eit );
 		}
 	}
 
-	mWatchesRef.erase( watch->Directory );
 	mWatches.erase( iter );
 
 	if ( NULL == watch->Parent ) {
+		mWatchesRef.erase( watch->Directory );
+
+		Lock l( mRealWatchesLock );
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
 		if ( eraseit != mRealWatches.end() ) {
@@ -276,7 +283,6 @@ void FileWatcherInotify::removeWatch( const std::string& directory ) {
 		return;
 	Lock initLock( mInitLock );
 	Lock lock( mWatchesLock );
-	Lock l( mRealWatchesLock );
 
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
@@ -293,6 +299,12 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 		return;
 	Lock initLock( mInitLock );
 	Lock lock( mWatchesLock );
+
+	/// Only the watches that the user added have an id
+	WatchMap::iterator iter = mWatches.find( watchid );
+	if ( iter == mWatches.end() || NULL != iter->second->Parent )
+		return;
+
 	removeWatchLocked( watchid );
 }
 
@@ -328,14 +340,13 @@ void FileWatcherInotify::run() {
 	std::string prevOldFileName;
 
 	do {
-		fd_set rfds;
-		FD_ZERO( &rfds );
-		FD_SET( mFD, &rfds );
-		timeval timeout;
-		timeout.tv_sec = 0;
-		timeout.tv_usec = 100000;
-
-		if ( select( FD_SETSIZE, &rfds, NULL, NULL, &timeout ) > 0 ) {
+		/// select can't wait for descriptors from FD_SETSIZE on
+		struct pollfd pfd;
+		pfd.fd = mFD;
+		pfd.events = POLLIN;
+		pfd.revents = 0;
+
+		if ( poll( &pfd, 1, 100 ) > 0 ) {
 			ssize_t len;
 
 			{
@@ -493,7 +504,8 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath,
 	FileSystem::dirAddSlashAtEnd( fpath );
 
 	/// If the watcher is recursive, checks if the new file is a folder, and creates a watcher
-	if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !reachedByLink( watch ) ) {
+	if ( watch->Recursive && isRegistered( static_cast<WatcherInotify*>( watch ) ) &&
+		 FileSystem::isDirectory( fpath ) && !reachedByLink( watch ) ) {
 		Watcher* found = NULL;
 
 		{
@@ -617,9 +629,12 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	if ( !watch || !watch->Listener || !mInitOK ) {
 		return;
 	}
-	mIsTakingAction = true;
 	Lock initLock( mInitLock );
 
+	/// It could have been removed while waiting for the lock
+	if ( !isRegistered( static_cast<WatcherInotify*>( watch ) ) )
+		return;
+
 	std::string fpath( watch->Directory + filename );
 
 	if ( IN_IGNORED & action ) {
@@ -640,6 +655,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Add );
 
+			if ( !isRegistered( static_cast<WatcherInotify*>( watch ) ) )
+				return;
+
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Modified );
 
@@ -658,6 +676,10 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 											   Actions::Moved, watch->OldFileName );
 		}
 
+		/// The listener could have removed the watch
+		if ( !isRegistered( static_cast<WatcherInotify*>( watch ) ) )
+			return;
+
 		/// Depends on what was moved: by now something else could be there
 		if ( watch->Recursive && ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
 			/// Update the new directory path
@@ -686,13 +708,18 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		FileSystem::dirAddSlashAtEnd( fpath );
 
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
-		if ( watch->Recursive ) {
+		if ( watch->Recursive && isRegistered( static_cast<WatcherInotify*>( watch ) ) ) {
 			Lock l( mWatchesLock );
 
 			removeTreeLocked( fpath );
 		}
 	}
-	mIsTakingAction = false;
+}
+
+bool FileWatcherInotify::isRegistered( WatcherInotify* watch ) {
+	Lock lock( mWatchesLock );
+	WatchMap::iterator it = mWatches.find( watch->InotifyID );
+	return it != mWatches.end() && it->second == watch;
 }
 
 std::vector<std::string> FileWatcherInotify::directories() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index b09765d..5320875 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -61,7 +61,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mWatchesLock;
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
-	bool mIsTakingAction;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	/// Bytes of events read so far, and how many of them were handled
@@ -100,6 +99,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Updates the watches of a directory moved to a directory that is being watched
 	void moveTree( WatcherInotify* watch, const std::string& opath, const std::string& fpath );
 
+	bool isRegistered( WatcherInotify* watch );
+
 	/// Checks again the directories that were found before the event of their move
 	void handlePendingChecks();
 
-- 
2.43.0


From 486ea665cb5d298ec73b16844cbe103fb9c3e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 04/32] fix: report inotify queue overflows and find the
 directories again after them

---
 src/efsw/FileWatcherInotify.cpp | 92 +++++++++++++++++++++++++++++++--
 src/efsw/FileWatcherInotify.hpp |  9 ++++
 2 files changed, 96 insertions(+), 5 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index ec4b645..2055bf1 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -21,6 +21,9 @@
 
 #define BUFF_SIZE ( ( sizeof( struct inotify_event ) + FILENAME_MAX ) * 1024 )
 
+#define INOTIFY_MASK \
+	( IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM | IN_DELETE | IN_MODIFY )
+
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
@@ -28,7 +31,8 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 	mFD( -1 ),
 	mThread( NULL ),
 	mStreamRead( 0 ),
-	mStreamPos( 0 ) {
+	mStreamPos( 0 ),
+	mOverflowed( false ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -127,9 +131,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	ioctl( mFD, FIONREAD, &pending );
 	Uint64 since = mStreamRead + pending;
 
-	int wd = inotify_add_watch( mFD, dir.c_str(),
-								IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM |
-									IN_DELETE | IN_MODIFY );
+	int wd = inotify_add_watch( mFD, dir.c_str(), INOTIFY_MASK );
 
 	if ( wd < 0 ) {
 		if ( errno == ENOENT ) {
@@ -380,6 +382,10 @@ void FileWatcherInotify::run() {
 
 						mStreamPos += sizeof( struct inotify_event ) + pevent->len;
 
+						/// It isn't for a watch in particular
+						if ( pevent->mask & IN_Q_OVERFLOW )
+							handleOverflow();
+
 						curWatcher = NULL;
 
 						{
@@ -442,9 +448,13 @@ void FileWatcherInotify::run() {
 			currentMoveFrom = NULL;
 		}
 
-		if ( !currentMoveFrom )
+		if ( !currentMoveFrom ) {
 			handlePendingChecks();
 
+			if ( mOverflowed )
+				resync();
+		}
+
 		{
 			Lock lock( mWatchesLock );
 			if ( !mDeletedWatches.empty() ) {
@@ -611,6 +621,78 @@ void FileWatcherInotify::handlePendingChecks() {
 	}
 }
 
+void FileWatcherInotify::handleOverflow() {
+	std::vector<WatcherInotify*> watches;
+
+	{
+		Lock lock( mWatchesLock );
+
+		for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+			if ( NULL == it->second->Parent )
+				watches.push_back( it->second );
+		}
+	}
+
+	/// Removed watches are not freed until all the events are handled
+	for ( WatcherInotify* watch : watches )
+		handleAction( watch, "", IN_Q_OVERFLOW );
+
+	mOverflowed = true;
+}
+
+void FileWatcherInotify::resync() {
+	Lock initLock( mInitLock );
+	int pending = 0;
+	ioctl( mFD, FIONREAD, &pending );
+
+	/// Until there are no events waiting the directories could still be moving
+	if ( pending > 0 )
+		return;
+
+	mOverflowed = false;
+
+	std::vector<WatcherInotify*> watches;
+
+	{
+		Lock lock( mWatchesLock );
+
+		for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+			if ( it->second->Recursive )
+				watches.push_back( it->second );
+		}
+	}
+
+	/// Watch the directories that appeared or moved
+	for ( WatcherInotify* watch : watches ) {
+		if ( NULL != watch->Parent || !isRegistered( watch ) )
+			continue;
+
+		FileInfoMap files = FileSystem::filesInfoFromPath( watch->Directory );
+
+		for ( FileInfoMap::iterator it = files.begin(); it != files.end(); ++it ) {
+			if ( it->second.isDirectory() )
+				checkForNewWatcher( watch, it->second.Filepath, true );
+		}
+	}
+
+	/// Forget the directories that are not there anymore
+	for ( WatcherInotify* watch : watches ) {
+		if ( NULL == watch->Parent || !isRegistered( watch ) )
+			continue;
+
+		int wd = inotify_add_watch( mFD, watch->Directory.c_str(), INOTIFY_MASK );
+
+		if ( wd != watch->InotifyID ) {
+			Lock lock( mWatchesLock );
+
+			if ( wd >= 0 && mWatches.find( wd ) == mWatches.end() )
+				inotify_rm_watch( mFD, wd );
+
+			removeWatchLocked( watch->InotifyID );
+		}
+	}
+}
+
 void FileWatcherInotify::removeTreeLocked( const std::string& dir ) {
 	std::vector<WatchID> eraseWatches;
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 5320875..6f625c4 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -67,6 +67,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Uint64 mStreamRead;
 	Uint64 mStreamPos;
 
+	/// Events were lost, the directories have to be checked
+	bool mOverflowed;
+
 	/// Directory being moved between two watched directories
 	std::string mMoveSource;
 
@@ -99,6 +102,12 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Updates the watches of a directory moved to a directory that is being watched
 	void moveTree( WatcherInotify* watch, const std::string& opath, const std::string& fpath );
 
+	/// Events were lost
+	void handleOverflow();
+
+	/// Finds out where the directories are after events were lost
+	void resync();
+
 	bool isRegistered( WatcherInotify* watch );
 
 	/// Checks again the directories that were found before the event of their move
-- 
2.43.0


From 79c719c86a32bbf755c1c142ec3a02b48738a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 05/32] fix: detect every difference between two examinations
 of a polled directory

Deletions were only looked for when the modification time of the directory
had changed in whole seconds, entries replaced by another kind of entry or
by a link were taken for modified ones, hard links were reported as moved
back and forth, names that were still there were moved away, modifications
within one second were missed and a directory that could not be listed
looked empty.
---
 src/efsw/DirectorySnapshot.cpp             | 108 ++++++++++++---------
 src/efsw/DirectorySnapshot.hpp             |   7 +-
 src/efsw/FileInfo.cpp                      |  42 ++++++--
 src/efsw/FileInfo.hpp                      |   2 +
 src/efsw/FileSystem.cpp                    |   4 +-
 src/efsw/FileSystem.hpp                    |   3 +-
 src/efsw/platform/posix/FileSystemImpl.cpp |  11 ++-
 src/efsw/platform/posix/FileSystemImpl.hpp |   2 +-
 src/efsw/platform/win/FileSystemImpl.cpp   |   5 +-
 src/efsw/platform/win/FileSystemImpl.hpp   |   2 +-
 10 files changed, 122 insertions(+), 64 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index f78475f..5f367b9 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -73,37 +73,37 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	}
 
 	/// If the directory was erased, create the events for files and directories deletion
-	if ( !curFI.exists() ) {
+	if ( !curFI.isDirectory() ) {
 		deleteAll( Diff );
 
 		return Diff;
 	}
 
-	FileInfoMap files = FileSystem::filesInfoFromPath( DirectoryInfo.Filepath );
+	bool complete = false;
+	FileInfoMap files = FileSystem::filesInfoFromPath( DirectoryInfo.Filepath, &complete );
 
-	if ( files.empty() && Files.empty() ) {
+	/// If the directory can't be listed right now keep what is known about it
+	if ( !complete ) {
 		return Diff;
 	}
 
 	FileInfo fi;
-	FileInfoMap FilesCpy;
+	FileInfoMap FilesNew;
 	FileInfoMap::iterator it;
 	FileInfoMap::iterator fiIt;
 
-	if ( Diff.DirChanged ) {
-		FilesCpy = Files;
-	}
-
 	for ( it = files.begin(); it != files.end(); it++ ) {
 		fi = it->second;
 
+		/// Only regular files or directories are reported
+		if ( !fi.isRegularFile() && !fi.isDirectory() ) {
+			continue;
+		}
+
 		/// File existed before?
 		fiIt = Files.find( it->first );
 
-		if ( fiIt != Files.end() ) {
-			/// Erase from the file list copy
-			FilesCpy.erase( it->first );
-
+		if ( fiIt != Files.end() && fiIt->second.isDirectory() == fi.isDirectory() ) {
 			/// File changed?
 			if ( ( *fiIt ).second != fi ) {
 				/// Update the new file info
@@ -116,46 +116,67 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 					Diff.FilesModified.push_back( fi );
 				}
 			}
+		} else {
+			/// New file found, it could also have taken the place of an entry of the other kind
+			FilesNew[it->first] = fi;
 		}
-		/// Only add regular files or directories
-		else if ( fi.isRegularFile() || fi.isDirectory() ) {
-			/// New file found
-			Files[it->first] = fi;
+	}
 
-			FileInfoMap::iterator fit;
-			std::string oldFile = "";
+	/// The files or directories that are not there anymore were deleted or moved
+	FileInfoMap FilesGone;
 
-			/// Check if the same inode already existed
-			if ( ( fit = nodeInFiles( fi ) ) != Files.end() ) {
-				oldFile = fit->first;
+	for ( it = Files.begin(); it != Files.end(); ) {
+		fiIt = files.find( it->first );
 
-				/// Avoid firing a Delete event
-				FilesCpy.erase( fit->first );
+		bool gone = fiIt == files.end() ||
+					( !fiIt->second.isRegularFile() && !fiIt->second.isDirectory() );
 
-				/// Delete the old file name
-				Files.erase( fit->first );
+		if ( gone ) {
+			FilesGone[it->first] = it->second;
+		} else if ( FilesNew.find( it->first ) != FilesNew.end() ) {
+			/// Replaced by an entry of the other kind
+			gone = true;
 
-				if ( fi.isDirectory() ) {
-					Diff.DirsMoved.push_back( std::make_pair( oldFile, fi ) );
-				} else {
-					Diff.FilesMoved.push_back( std::make_pair( oldFile, fi ) );
-				}
+			if ( it->second.isDirectory() ) {
+				Diff.DirsDeleted.push_back( it->second );
 			} else {
-				if ( fi.isDirectory() ) {
-					Diff.DirsCreated.push_back( fi );
-				} else {
-					Diff.FilesCreated.push_back( fi );
-				}
+				Diff.FilesDeleted.push_back( it->second );
 			}
 		}
+
+		if ( gone ) {
+			Files.erase( it++ );
+		} else {
+			++it;
+		}
 	}
 
-	if ( !Diff.DirChanged ) {
-		return Diff;
+	for ( it = FilesNew.begin(); it != FilesNew.end(); it++ ) {
+		fi = it->second;
+
+		Files[it->first] = fi;
+
+		/// Check if the same inode was there with a name that does not exist anymore
+		if ( ( fiIt = nodeInFiles( FilesGone, fi ) ) != FilesGone.end() ) {
+			if ( fi.isDirectory() ) {
+				Diff.DirsMoved.push_back( std::make_pair( fiIt->first, fi ) );
+			} else {
+				Diff.FilesMoved.push_back( std::make_pair( fiIt->first, fi ) );
+			}
+
+			/// Avoid firing a Delete event
+			FilesGone.erase( fiIt );
+		} else {
+			if ( fi.isDirectory() ) {
+				Diff.DirsCreated.push_back( fi );
+			} else {
+				Diff.FilesCreated.push_back( fi );
+			}
+		}
 	}
 
 	/// The files or directories that remains were deleted
-	for ( it = FilesCpy.begin(); it != FilesCpy.end(); it++ ) {
+	for ( it = FilesGone.begin(); it != FilesGone.end(); it++ ) {
 		fi = it->second;
 
 		if ( fi.isDirectory() ) {
@@ -163,26 +184,23 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		} else {
 			Diff.FilesDeleted.push_back( fi );
 		}
-
-		/// Remove the file or directory from the list of files
-		Files.erase( it->first );
 	}
 
 	return Diff;
 }
 
-FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi ) {
+FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfoMap& files, FileInfo& fi ) {
 	FileInfoMap::iterator it;
 
 	if ( FileInfo::inodeSupported() ) {
-		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath ) {
+		for ( it = files.begin(); it != files.end(); it++ ) {
+			if ( it->second.sameInode( fi ) && it->second.isDirectory() == fi.isDirectory() ) {
 				return it;
 			}
 		}
 	}
 
-	return Files.end();
+	return files.end();
 }
 
 void DirectorySnapshot::addFile( std::string path ) {
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 0e60542..54f690a 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -24,7 +24,10 @@ class DirectorySnapshot {
 
 	DirectorySnapshotDiff scan();
 
-	FileInfoMap::iterator nodeInFiles( FileInfo& fi );
+	/// Forgets every file, reporting them as deleted
+	void deleteAll( DirectorySnapshotDiff& Diff );
+
+	FileInfoMap::iterator nodeInFiles( FileInfoMap& files, FileInfo& fi );
 
 	void addFile( std::string path );
 
@@ -36,8 +39,6 @@ class DirectorySnapshot {
 
   protected:
 	void initFiles();
-
-	void deleteAll( DirectorySnapshotDiff& Diff );
 };
 
 } // namespace efsw
diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 4dcbd7d..542e4dd 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -55,26 +55,44 @@ bool FileInfo::inodeSupported() {
 #endif
 }
 
+/// The modification time in the best resolution that the platform reports: two changes made within
+/// the same second must be told apart.
+template <typename Stat> static Uint64 modificationTime( const Stat& st ) {
+#if EFSW_OS == EFSW_OS_LINUX || EFSW_OS == EFSW_OS_ANDROID
+	return static_cast<Uint64>( st.st_mtim.tv_sec ) * 1000000000ull +
+		   static_cast<Uint64>( st.st_mtim.tv_nsec );
+#elif EFSW_OS == EFSW_OS_MACOSX || EFSW_OS == EFSW_OS_IOS
+	return static_cast<Uint64>( st.st_mtimespec.tv_sec ) * 1000000000ull +
+		   static_cast<Uint64>( st.st_mtimespec.tv_nsec );
+#else
+	return st.st_mtime;
+#endif
+}
+
 FileInfo::FileInfo() :
-	ModificationTime( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
+	ModificationTime( 0 ), Size( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ), LinkInode( 0 ) {}
 
 FileInfo::FileInfo( const std::string& filepath ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
-	Inode( 0 ) {
+	Inode( 0 ),
+	LinkInode( 0 ) {
 	getInfo();
 }
 
 FileInfo::FileInfo( const std::string& filepath, bool linkInfo ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
-	Inode( 0 ) {
+	Inode( 0 ),
+	LinkInode( 0 ) {
 	if ( linkInfo ) {
 		getRealInfo();
 	} else {
@@ -99,14 +117,20 @@ void FileInfo::getInfo() {
 
 #if EFSW_PLATFORM != EFSW_PLATFORM_WIN32
 	struct stat st;
-	int res = stat( Filepath.c_str(), &st );
+	int res = lstat( Filepath.c_str(), &st );
+
+	/// A link is not the entry it points to, even if everything else is the same
+	if ( 0 == res && S_ISLNK( st.st_mode ) ) {
+		LinkInode = st.st_ino;
+		res = stat( Filepath.c_str(), &st );
+	}
 #else
 	struct _stat st;
 	int res = _wstat( FileSystem::getWidePath( Filepath ).c_str(), &st );
 #endif
 
 	if ( 0 == res ) {
-		ModificationTime = st.st_mtime;
+		ModificationTime = modificationTime( st );
 		Size = st.st_size;
 		OwnerId = st.st_uid;
 		GroupId = st.st_gid;
@@ -135,7 +159,7 @@ void FileInfo::getRealInfo() {
 #endif
 
 	if ( 0 == res ) {
-		ModificationTime = st.st_mtime;
+		ModificationTime = modificationTime( st );
 		Size = st.st_size;
 		OwnerId = st.st_uid;
 		GroupId = st.st_gid;
@@ -151,7 +175,8 @@ void FileInfo::getRealInfo() {
 bool FileInfo::operator==( const FileInfo& Other ) const {
 	return ( ModificationTime == Other.ModificationTime && Size == Other.Size &&
 			 OwnerId == Other.OwnerId && GroupId == Other.GroupId &&
-			 Permissions == Other.Permissions && Inode == Other.Inode );
+			 Permissions == Other.Permissions && Inode == Other.Inode &&
+			 LinkInode == Other.LinkInode );
 }
 
 bool FileInfo::isDirectory() const {
@@ -226,11 +251,12 @@ FileInfo& FileInfo::operator=( const FileInfo& Other ) {
 	this->OwnerId = Other.OwnerId;
 	this->Permissions = Other.Permissions;
 	this->Inode = Other.Inode;
+	this->LinkInode = Other.LinkInode;
 	return *this;
 }
 
 bool FileInfo::sameInode( const FileInfo& Other ) const {
-	return inodeSupported() && Inode == Other.Inode;
+	return inodeSupported() && Inode == Other.Inode && LinkInode == Other.LinkInode;
 }
 
 bool FileInfo::operator!=( const FileInfo& Other ) const {
diff --git a/src/efsw/FileInfo.hpp b/src/efsw/FileInfo.hpp
index 1aca2a8..551db11 100644
--- a/src/efsw/FileInfo.hpp
+++ b/src/efsw/FileInfo.hpp
@@ -53,6 +53,8 @@ class FileInfo {
 	Uint32 GroupId;
 	Uint32 Permissions;
 	Uint64 Inode;
+	/// Inode of the symbolic link itself, 0 if it is not a link
+	Uint64 LinkInode;
 };
 
 typedef std::map<std::string, FileInfo> FileInfoMap;
diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index d17f00c..3dff4b3 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -25,10 +25,10 @@ bool FileSystem::isDirectory( const std::string& path ) {
 	return Platform::FileSystem::isDirectory( path );
 }
 
-FileInfoMap FileSystem::filesInfoFromPath( std::string path ) {
+FileInfoMap FileSystem::filesInfoFromPath( std::string path, bool* complete ) {
 	dirAddSlashAtEnd( path );
 
-	return Platform::FileSystem::filesInfoFromPath( path );
+	return Platform::FileSystem::filesInfoFromPath( path, complete );
 }
 
 char FileSystem::getOSSlash() {
diff --git a/src/efsw/FileSystem.hpp b/src/efsw/FileSystem.hpp
index 810c833..77d9f63 100644
--- a/src/efsw/FileSystem.hpp
+++ b/src/efsw/FileSystem.hpp
@@ -10,7 +10,8 @@ class FileSystem {
   public:
 	static bool isDirectory( const std::string& path );
 
-	static FileInfoMap filesInfoFromPath( std::string path );
+	/// @param complete Set to false when the directory could not be listed ( completely ).
+	static FileInfoMap filesInfoFromPath( std::string path, bool* complete = NULL );
 
 	static char getOSSlash();
 
diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 92eeb47..dfaa107 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -2,6 +2,7 @@
 
 #if defined( EFSW_PLATFORM_POSIX )
 
+#include <cerrno>
 #include <cstring>
 #include <dirent.h>
 #include <efsw/FileInfo.hpp>
@@ -161,16 +162,19 @@ std::string FileSystem::getCurrentWorkingDirectory() {
 	return result != NULL ? std::string( result ) : std::string();
 }
 
-FileInfoMap FileSystem::filesInfoFromPath( const std::string& path ) {
+FileInfoMap FileSystem::filesInfoFromPath( const std::string& path, bool* complete ) {
 	FileInfoMap files;
 
+	if ( NULL != complete )
+		*complete = false;
+
 	DIR* dp;
 	struct dirent* dirp;
 
 	if ( ( dp = opendir( path.c_str() ) ) == NULL )
 		return files;
 
-	while ( ( dirp = readdir( dp ) ) != NULL ) {
+	while ( errno = 0, ( dirp = readdir( dp ) ) != NULL ) {
 		if ( strcmp( dirp->d_name, ".." ) != 0 && strcmp( dirp->d_name, "." ) != 0 ) {
 			std::string name( dirp->d_name );
 			std::string fpath( path + name );
@@ -179,6 +183,9 @@ FileInfoMap FileSystem::filesInfoFromPath( const std::string& path ) {
 		}
 	}
 
+	if ( NULL != complete )
+		*complete = 0 == errno;
+
 	closedir( dp );
 
 	return files;
diff --git a/src/efsw/platform/posix/FileSystemImpl.hpp b/src/efsw/platform/posix/FileSystemImpl.hpp
index 0bfba76..29d1bf5 100644
--- a/src/efsw/platform/posix/FileSystemImpl.hpp
+++ b/src/efsw/platform/posix/FileSystemImpl.hpp
@@ -10,7 +10,7 @@ namespace efsw { namespace Platform {
 
 class FileSystem {
   public:
-	static FileInfoMap filesInfoFromPath( const std::string& path );
+	static FileInfoMap filesInfoFromPath( const std::string& path, bool* complete = NULL );
 
 	static char getOSSlash();
 
diff --git a/src/efsw/platform/win/FileSystemImpl.cpp b/src/efsw/platform/win/FileSystemImpl.cpp
index 6ecbc40..5a0af5e 100644
--- a/src/efsw/platform/win/FileSystemImpl.cpp
+++ b/src/efsw/platform/win/FileSystemImpl.cpp
@@ -48,7 +48,7 @@ std::string FileSystem::getCurrentWorkingDirectory() {
 #endif
 }
 
-FileInfoMap FileSystem::filesInfoFromPath( const std::string& path ) {
+FileInfoMap FileSystem::filesInfoFromPath( const std::string& path, bool* complete ) {
 	FileInfoMap files;
 
 	String tpath( path );
@@ -62,6 +62,9 @@ FileInfoMap FileSystem::filesInfoFromPath( const std::string& path ) {
 	WIN32_FIND_DATAW findFileData;
 	HANDLE hFind = FindFirstFileW( (LPCWSTR)tpath.toWideString().c_str(), &findFileData );
 
+	if ( NULL != complete )
+		*complete = hFind != INVALID_HANDLE_VALUE;
+
 	if ( hFind != INVALID_HANDLE_VALUE ) {
 		std::string name( String( findFileData.cFileName ).toUtf8() );
 		std::string fpath( path + name );
diff --git a/src/efsw/platform/win/FileSystemImpl.hpp b/src/efsw/platform/win/FileSystemImpl.hpp
index e952efc..4f9a9d4 100644
--- a/src/efsw/platform/win/FileSystemImpl.hpp
+++ b/src/efsw/platform/win/FileSystemImpl.hpp
@@ -11,7 +11,7 @@ namespace efsw { namespace Platform {
 
 class FileSystem {
   public:
-	static FileInfoMap filesInfoFromPath( const std::string& path );
+	static FileInfoMap filesInfoFromPath( const std::string& path, bool* complete = NULL );
 
 	static char getOSSlash();
 
-- 
2.43.0


From 553ff139813c5982abd74b34142ece79281fa598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 06/32] fix: follow the directory tree in polled watches

Non-recursive watches watched new sub-directories, files in new directories
were not reported, directories behind links that are not followed were not
reported at all, deletions were reported after what took the place of the
deleted names, and followed links were registered by target and by name.
---
 src/efsw/DirWatcherGeneric.cpp | 229 +++++++++++++++++++--------------
 src/efsw/DirWatcherGeneric.hpp |  11 ++
 2 files changed, 146 insertions(+), 94 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fee82ea..7ff9345 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -8,7 +8,7 @@ namespace efsw {
 DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric* ws,
 									  const std::string& directory, bool recursive,
 									  bool reportNewFiles ) :
-	Parent( parent ), Watch( ws ), Recursive( recursive ), Deleted( false ) {
+	Parent( parent ), Watch( ws ), Recursive( recursive ), FromLink( false ), Deleted( false ) {
 	resetDirectory( directory );
 
 	if ( !reportNewFiles ) {
@@ -22,6 +22,10 @@ DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric*
 			DiffIterator( FilesCreated ) {
 				handleAction( ( *it ).Filepath, Actions::Add );
 			}
+
+			DiffIterator( DirsCreated ) {
+				handleAction( ( *it ).Filepath, Actions::Add );
+			}
 		}
 	}
 }
@@ -29,11 +33,13 @@ DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric*
 DirWatcherGeneric::~DirWatcherGeneric() {
 	/// If the directory was deleted mark the files as deleted
 	if ( Deleted ) {
-		DirectorySnapshotDiff Diff = DirSnap.scan();
-
-		if ( !DirSnap.exists() ) {
+		/// A link with the name of the directory is not the directory
+		if ( !FileInfo( DirSnap.DirectoryInfo.Filepath, true ).isDirectory() ) {
+			DirectorySnapshotDiff Diff;
 			FileInfoList::iterator it;
 
+			DirSnap.deleteAll( Diff );
+
 			DiffIterator( FilesDeleted ) {
 				handleAction( ( *it ).Filepath, Actions::Delete );
 			}
@@ -80,12 +86,20 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 	DirSnap.setDirectoryInfo( dir );
 
 	for ( auto& child : Directories ) {
-		child.second->resetDirectory( child.first );
+		/// What a followed link points to did not move with the link
+		if ( !child.second->FromLink ) {
+			child.second->resetDirectory( child.first );
+		}
 	}
 }
 
 void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long action,
 									  const std::string& oldFilename ) {
+	/// Removed by a callback?
+	if ( NULL == Watch->Listener ) {
+		return;
+	}
+
 	Watch->Listener->handleFileAction( Watch->ID, DirSnap.DirectoryInfo.Filepath,
 									   FileSystem::fileNameFromPath( filename ), (Action)action,
 									   oldFilename );
@@ -94,46 +108,9 @@ void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long
 void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 	if ( Recursive ) {
 		/// Create the subdirectories watchers
-		std::string dir;
-
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
-			if ( it->second.isDirectory() && it->second.isReadable() &&
-				 !FileSystem::isRemoteFS( it->second.Filepath ) ) {
-				/// Check if the directory is a symbolic link
-				std::string curPath;
-				std::string link( FileSystem::getLinkRealPath( it->second.Filepath, curPath ) );
-
-				dir = it->first;
-
-				if ( "" != link ) {
-					/// Avoid adding symlinks directories if it's now enabled
-					if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
-						continue;
-					}
-
-					/// If it's a symlink check if the realpath exists as a watcher, or
-					/// if the path is outside the current dir
-					if ( Watch->WatcherImpl->pathInWatches( link ) ||
-						 Watch->pathInWatches( link ) ||
-						 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
-						continue;
-					} else {
-						dir = link;
-					}
-				} else {
-					if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
-						continue;
-					}
-				}
-
-				if ( reportNewFiles ) {
-					handleAction( dir, Actions::Add );
-				}
-
-				Directories[dir] =
-					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
-
-				Directories[dir]->addChildren( reportNewFiles );
+			if ( it->second.isDirectory() ) {
+				addDirectory( it->first, reportNewFiles );
 			}
 		}
 	}
@@ -142,7 +119,7 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 void DirWatcherGeneric::watch( bool reportOwnChange ) {
 	DirectorySnapshotDiff Diff = DirSnap.scan();
 
-	if ( reportOwnChange && Diff.DirChanged && NULL != Parent ) {
+	if ( reportOwnChange && Diff.DirChanged && NULL != Parent && NULL != Watch->Listener ) {
 		Watch->Listener->handleFileAction(
 			Watch->ID, FileSystem::pathRemoveFileName( DirSnap.DirectoryInfo.Filepath ),
 			FileSystem::fileNameFromPath( DirSnap.DirectoryInfo.Filepath ), Actions::Modified );
@@ -152,40 +129,40 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		FileInfoList::iterator it;
 		MovedList::iterator mit;
 
-		/// Files
-		DiffIterator( FilesCreated ) {
-			handleAction( ( *it ).Filepath, Actions::Add );
-		}
-
-		DiffIterator( FilesModified ) {
-			handleAction( ( *it ).Filepath, Actions::Modified );
+		/// What is gone first: its names can be already in use again
+		DiffIterator( FilesDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
 		}
 
-		DiffIterator( FilesDeleted ) {
+		DiffIterator( DirsDeleted ) {
 			handleAction( ( *it ).Filepath, Actions::Delete );
+			removeDirectory( ( *it ).Filepath );
 		}
 
 		DiffMovedIterator( FilesMoved ) {
 			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
 		}
 
-		/// Directories
-		DiffIterator( DirsCreated ) {
-			createDirectory( ( *it ).Filepath );
+		DiffMovedIterator( DirsMoved ) {
+			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
+			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
 		}
 
-		DiffIterator( DirsModified ) {
+		DiffIterator( FilesCreated ) {
+			handleAction( ( *it ).Filepath, Actions::Add );
+		}
+
+		DiffIterator( FilesModified ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
 		}
 
-		DiffIterator( DirsDeleted ) {
-			handleAction( ( *it ).Filepath, Actions::Delete );
-			removeDirectory( ( *it ).Filepath );
+		DiffIterator( DirsCreated ) {
+			createDirectory( ( *it ).Filepath );
 		}
 
-		DiffMovedIterator( DirsMoved ) {
-			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
-			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
+		DiffIterator( DirsModified ) {
+			handleAction( ( *it ).Filepath, Actions::Modified );
+			updateDirectory( ( *it ).Filepath );
 		}
 	}
 
@@ -268,12 +245,21 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	FileSystem::dirRemoveSlashAtEnd( newdir );
 	newdir = FileSystem::fileNameFromPath( newdir );
 
-	DirWatcherGeneric* dw = NULL;
+	handleAction( newdir, Actions::Add );
+
+	/// Creates the new directory watcher of the subfolder and check for new files
+	return addDirectory( newdir, true );
+}
+
+DirWatcherGeneric* DirWatcherGeneric::addDirectory( const std::string& name, bool reportNewFiles ) {
+	if ( !Recursive || Directories.find( name ) != Directories.end() ) {
+		return NULL;
+	}
 
 	/// Check if the directory is a symbolic link
-	std::string parentPath( DirSnap.DirectoryInfo.Filepath );
-	FileSystem::dirAddSlashAtEnd( parentPath );
-	std::string dir( parentPath + newdir );
+	std::string dir( DirSnap.DirectoryInfo.Filepath );
+	FileSystem::dirAddSlashAtEnd( dir );
+	dir += name;
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
@@ -283,45 +269,95 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 		return NULL;
 	}
 
+	DirWatcherGeneric* dw = NULL;
 	std::string curPath;
 	std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
-	bool skip = false;
 
 	if ( "" != link ) {
-		/// Avoid adding symlinks directories if it's now enabled
-		if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
-			skip = true;
-		}
-
+		/// Avoid adding symlinks directories if it's not enabled.
 		/// If it's a symlink check if the realpath exists as a watcher, or
 		/// if the path is outside the current dir
-		if ( Watch->WatcherImpl->pathInWatches( link ) || Watch->pathInWatches( link ) ||
+		if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ||
+			 Watch->WatcherImpl->pathInWatches( link ) || Watch->pathInWatches( link ) ||
 			 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
-			skip = true;
-		} else {
-			dir = link;
+			return NULL;
 		}
-	} else {
-		if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
-			skip = true;
+
+		dir = link;
+	} else if ( Watch->pathInWatches( dir ) ) {
+		/// The directory was reached first through a link, from now on it's watched by its name
+		dw = Watch->DirWatch->takeLinked( dir, this );
+
+		if ( NULL != dw ) {
+			dw->Parent = this;
+			dw->FromLink = false;
+			Directories[name] = dw;
 		}
+
+		return dw;
+	} else if ( Watch->WatcherImpl->pathInWatches( dir ) ) {
+		return NULL;
 	}
 
-	if ( !skip ) {
-		handleAction( newdir, Actions::Add );
+	dw = new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
+	dw->FromLink = "" != link;
+
+	/// Add it to the list of directories
+	Directories[name] = dw;
 
-		/// Creates the new directory watcher of the subfolder and check for new files
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
+	dw->addChildren( reportNewFiles );
 
-		dw->addChildren();
+	return dw;
+}
+
+DirWatcherGeneric* DirWatcherGeneric::takeLinked( const std::string& path,
+												  const DirWatcherGeneric* taker ) {
+	for ( DirWatchMap::iterator it = Directories.begin(); it != Directories.end(); ++it ) {
+		DirWatcherGeneric* dw = it->second;
 
-		dw->watch();
+		if ( dw->FromLink && dw->DirSnap.DirectoryInfo.Filepath == path ) {
+			/// A directory can't be moved below itself
+			for ( const DirWatcherGeneric* up = taker; NULL != up; up = up->Parent ) {
+				if ( up == dw ) {
+					return NULL;
+				}
+			}
 
-		/// Add it to the list of directories
-		Directories[newdir] = dw;
+			Directories.erase( it );
+
+			return dw;
+		}
+
+		dw = dw->takeLinked( path, taker );
+
+		if ( NULL != dw ) {
+			return dw;
+		}
 	}
 
-	return dw;
+	return NULL;
+}
+
+void DirWatcherGeneric::updateDirectory( std::string dir ) {
+	FileSystem::dirRemoveSlashAtEnd( dir );
+
+	std::string name( FileSystem::fileNameFromPath( dir ) );
+	DirWatchMap::iterator dit = Directories.find( name );
+
+	/// The name of a directory could be now the name of a link, or a link could have changed
+	if ( dit != Directories.end() ) {
+		std::string curPath;
+		std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
+
+		if ( dit->second->FromLink
+				 ? link != dit->second->DirSnap.DirectoryInfo.Filepath
+				 : "" != link ) {
+			removeDirectory( name );
+		}
+	}
+
+	/// It could be also possible to watch it only now
+	addDirectory( name, true );
 }
 
 void DirWatcherGeneric::removeDirectory( std::string dir ) {
@@ -339,14 +375,14 @@ void DirWatcherGeneric::removeDirectory( std::string dir ) {
 	if ( dit != Directories.end() ) {
 		dw = dit->second;
 
+		/// Remove the directory from the map
+		Directories.erase( dit );
+
 		/// Flag it as deleted so it fire the event for every file inside deleted
 		dw->Deleted = true;
 
 		/// Delete the DirWatcherGeneric
 		efSAFE_DELETE( dw );
-
-		/// Remove the directory from the map
-		Directories.erase( dit->first );
 	}
 }
 
@@ -367,11 +403,16 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 		dw = dit->second;
 
 		/// Remove the directory from the map
-		Directories.erase( dit->first );
+		Directories.erase( dit );
 
 		Directories[newDir] = dw;
 
-		dw->resetDirectory( newDir );
+		if ( !dw->FromLink ) {
+			dw->resetDirectory( newDir );
+		}
+	} else {
+		/// Not watched until now with the old name
+		addDirectory( newDir, true );
 	}
 }
 
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index c1f7135..21640ce 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -18,6 +18,9 @@ class DirWatcherGeneric {
 	DirWatchMap Directories;
 	bool Recursive;
 
+	/// Was it reached through a followed symbolic link?
+	bool FromLink;
+
 	DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric* ws, const std::string& directory,
 					   bool recursive, bool reportNewFiles = false );
 
@@ -42,6 +45,14 @@ class DirWatcherGeneric {
 
 	DirWatcherGeneric* createDirectory( std::string newdir );
 
+	/// Watches the sub-directory if it must be watched
+	DirWatcherGeneric* addDirectory( const std::string& name, bool reportNewFiles );
+
+	/// Releases the watcher of the path if it was reached only through a link
+	DirWatcherGeneric* takeLinked( const std::string& path, const DirWatcherGeneric* taker );
+
+	void updateDirectory( std::string dir );
+
 	void removeDirectory( std::string dir );
 
 	void moveDirectory( std::string oldDir, std::string newDir );
-- 
2.43.0


From 5096940bb52ea8d069a2f27af5da95d1c17a66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 07/32] fix: make the registry of the generic watcher safe for
 callbacks and threads

addWatch and removeWatch looked at the list of watches without the lock, and
removing a watch from its own callback freed it while it was in use.
---
 src/efsw/FileWatcherGeneric.cpp | 64 +++++++++++++++++++++++++++------
 src/efsw/FileWatcherGeneric.hpp |  7 ++++
 2 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 165fafa..b712844 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -12,7 +12,12 @@ FileWatcherGeneric::FileWatcherGeneric( FileWatcher* parent ) :
 }
 
 FileWatcherGeneric::FileWatcherGeneric( FileWatcher* parent, unsigned int pollingFreq ) :
-	FileWatcherImpl( parent ), mThread( NULL ), mLastWatchID( 0 ), mPollingFreq( pollingFreq ) {
+	FileWatcherImpl( parent ),
+	mThread( NULL ),
+	mLastWatchID( 0 ),
+	mPolled( NULL ),
+	mPolledRemoved( false ),
+	mPollingFreq( pollingFreq ) {
 	mInitOK = true;
 	mIsGeneric = true;
 }
@@ -36,6 +41,8 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() ) {
@@ -63,7 +70,6 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	WatcherGeneric* pWatch = new WatcherGeneric( mLastWatchID, dir, watcher, this, recursive );
 
-	Lock lock( mWatchesLock );
 	mWatches.push_back( pWatch );
 
 	return pWatch->ID;
@@ -73,17 +79,17 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			releaseWatch( watch );
 
 			return;
 		}
@@ -91,24 +97,36 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 }
 
 void FileWatcherGeneric::removeWatch( WatchID watchid ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			releaseWatch( watch );
 
 			return;
 		}
 	}
 }
 
+void FileWatcherGeneric::releaseWatch( WatcherGeneric* watch ) {
+	/// The watch is reporting its changes right now: the callback removed it
+	if ( watch == mPolled ) {
+		watch->Listener = NULL;
+		mPolledRemoved = true;
+	} else {
+		efSAFE_DELETE( watch );
+	}
+}
+
 void FileWatcherGeneric::watch() {
+	Lock lock( mWatchesLock );
+
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
 		mThread->launch();
@@ -120,10 +138,34 @@ void FileWatcherGeneric::run() {
 		{
 			Lock lock( mWatchesLock );
 
-			WatchList::iterator it = mWatches.begin();
+			/// The callbacks could add and remove watches
+			std::vector<WatchID> ids;
+
+			for ( WatchList::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+				ids.push_back( ( *it )->ID );
+			}
+
+			for ( size_t i = 0; i < ids.size(); i++ ) {
+				WatchList::iterator it = mWatches.begin();
+
+				while ( it != mWatches.end() && ( *it )->ID != ids[i] ) {
+					++it;
+				}
+
+				if ( it == mWatches.end() ) {
+					continue;
+				}
+
+				mPolled = *it;
+				mPolledRemoved = false;
+
+				mPolled->watch();
+
+				if ( mPolledRemoved ) {
+					efSAFE_DELETE( mPolled );
+				}
 
-			for ( ; it != mWatches.end(); ++it ) {
-				( *it )->watch();
+				mPolled = NULL;
 			}
 		}
 
diff --git a/src/efsw/FileWatcherGeneric.hpp b/src/efsw/FileWatcherGeneric.hpp
index f70f512..00ee433 100644
--- a/src/efsw/FileWatcherGeneric.hpp
+++ b/src/efsw/FileWatcherGeneric.hpp
@@ -52,12 +52,19 @@ class FileWatcherGeneric : public FileWatcherImpl {
 
 	Mutex mWatchesLock;
 
+	/// The watch that is reporting its changes, and if it was removed in the meantime
+	WatcherGeneric* mPolled;
+
+	bool mPolledRemoved;
+
 	int mPollingFreq{ 1000 };
 
 	bool pathInWatches( const std::string& path ) override;
 
   private:
 	void run();
+
+	void releaseWatch( WatcherGeneric* watch );
 };
 
 } // namespace efsw
-- 
2.43.0


From ebf1133aaf03c61d3da6ab1eed839a7841442ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 08/32] fix: watch polled directories that could not be watched
 when they appeared

---
 src/efsw/DirWatcherGeneric.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 7ff9345..f44f9ad 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -109,7 +109,10 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 	if ( Recursive ) {
 		/// Create the subdirectories watchers
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
-			if ( it->second.isDirectory() ) {
+			/// Avoid adding symlinks directories if it's not enabled
+			if ( it->second.isDirectory() &&
+				 ( 0 == it->second.LinkInode ||
+				   Watch->WatcherImpl->mFileWatcher->followSymlinks() ) ) {
 				addDirectory( it->first, reportNewFiles );
 			}
 		}
@@ -166,6 +169,9 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		}
 	}
 
+	/// There could be directories that were not there ( or not readable ) when they had to be watched
+	addChildren( true );
+
 	/// Process the subdirectories looking for changes
 	for ( DirWatchMap::iterator dit = Directories.begin(); dit != Directories.end(); ++dit ) {
 		/// Just watch
@@ -355,9 +361,6 @@ void DirWatcherGeneric::updateDirectory( std::string dir ) {
 			removeDirectory( name );
 		}
 	}
-
-	/// It could be also possible to watch it only now
-	addDirectory( name, true );
 }
 
 void DirWatcherGeneric::removeDirectory( std::string dir ) {
@@ -410,9 +413,6 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 		if ( !dw->FromLink ) {
 			dw->resetDirectory( newDir );
 		}
-	} else {
-		/// Not watched until now with the old name
-		addDirectory( newDir, true );
 	}
 }
 
-- 
2.43.0


From 65704a34feb11aac09ea7641897bf0c7c19cb4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:43 +0000
Subject: [PATCH 09/32] fix: convert malformed and boundary Unicode text
 exactly

U+FFFF was encoded as a surrogate pair, low surrogates were encoded in UTF-8,
malformed sequences swallowed the characters after them and the length of an
UTF-32 text was negative.
---
 src/efsw/Utf.inl | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/efsw/Utf.inl b/src/efsw/Utf.inl
index ef71bc8..3b80724 100644
--- a/src/efsw/Utf.inl
+++ b/src/efsw/Utf.inl
@@ -21,8 +21,20 @@ template <typename In> In Utf<8>::Decode( In begin, In end, Uint32& output, Uint
 									   0x03C82080, 0xFA082080, 0x82082080 };
 
 	// Decode the character
-	int trailingBytes = trailing[static_cast<Uint8>( *begin )];
-	if ( begin + trailingBytes < end ) {
+	Uint8 first = static_cast<Uint8>( *begin );
+	int trailingBytes = trailing[first];
+	bool valid = ( first < 0x80 || first >= 0xC0 ) && trailingBytes <= 3;
+
+	// Only continuation bytes belong to the character
+	In last = begin;
+	++last;
+	for ( int i = 0; valid && i < trailingBytes; i++ ) {
+		valid = last < end && ( static_cast<Uint8>( *last ) & 0xC0 ) == 0x80;
+		if ( valid )
+			++last;
+	}
+
+	if ( valid ) {
 		output = 0;
 		switch ( trailingBytes ) {
 			case 5:
@@ -44,9 +56,15 @@ template <typename In> In Utf<8>::Decode( In begin, In end, Uint32& output, Uint
 				output += static_cast<Uint8>( *begin++ );
 		}
 		output -= offsets[trailingBytes];
+
+		// Overlong encodings, surrogates and values out of range are not characters
+		static const Uint32 lowest[4] = { 0x00000000, 0x00000080, 0x00000800, 0x00010000 };
+		if ( output < lowest[trailingBytes] || output > 0x0010FFFF ||
+			 ( output >= 0xD800 && output <= 0xDFFF ) )
+			output = replacement;
 	} else {
 		// Incomplete character
-		begin = end;
+		begin = last;
 		output = replacement;
 	}
 
@@ -58,7 +76,7 @@ template <typename Out> Out Utf<8>::Encode( Uint32 input, Out output, Uint8 repl
 	static const Uint8 firstBytes[7] = { 0x00, 0x00, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
 
 	// Encode the character
-	if ( ( input > 0x0010FFFF ) || ( ( input >= 0xD800 ) && ( input <= 0xDBFF ) ) ) {
+	if ( ( input > 0x0010FFFF ) || ( ( input >= 0xD800 ) && ( input <= 0xDFFF ) ) ) {
 		// Invalid character
 		if ( replacement )
 			*output++ = replacement;
@@ -222,8 +240,9 @@ template <typename In> In Utf<16>::Decode( In begin, In end, Uint32& output, Uin
 	// If it's a surrogate pair, first convert to a single UTF-32 character
 	if ( ( first >= 0xD800 ) && ( first <= 0xDBFF ) ) {
 		if ( begin < end ) {
-			Uint32 second = *begin++;
+			Uint32 second = static_cast<Uint16>( *begin );
 			if ( ( second >= 0xDC00 ) && ( second <= 0xDFFF ) ) {
+				++begin;
 				// The second element is valid: convert the two elements to a UTF-32 character
 				output = static_cast<Uint32>( ( ( first - 0xD800 ) << 10 ) + ( second - 0xDC00 ) +
 											  0x0010000 );
@@ -236,6 +255,9 @@ template <typename In> In Utf<16>::Decode( In begin, In end, Uint32& output, Uin
 			begin = end;
 			output = replacement;
 		}
+	} else if ( ( first >= 0xDC00 ) && ( first <= 0xDFFF ) ) {
+		// The second element of a surrogate pair without the first one
+		output = replacement;
 	} else {
 		// We can make a direct copy
 		output = first;
@@ -245,7 +267,7 @@ template <typename In> In Utf<16>::Decode( In begin, In end, Uint32& output, Uin
 }
 
 template <typename Out> Out Utf<16>::Encode( Uint32 input, Out output, Uint16 replacement ) {
-	if ( input < 0xFFFF ) {
+	if ( input <= 0xFFFF ) {
 		// The character can be copied directly, we just need to check if it's in the valid range
 		if ( ( input >= 0xD800 ) && ( input <= 0xDFFF ) ) {
 			// Invalid character (this range is reserved)
@@ -390,7 +412,7 @@ template <typename In> In Utf<32>::Next( In begin, In end ) {
 }
 
 template <typename In> std::size_t Utf<32>::Count( In begin, In end ) {
-	return begin - end;
+	return end - begin;
 }
 
 template <typename In, typename Out>
-- 
2.43.0


From 0cf04099f3db59c2824ddbde8243f65fb45f9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:43 +0000
Subject: [PATCH 10/32] fix: honour the length of C strings given to String

---
 src/efsw/String.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/efsw/String.cpp b/src/efsw/String.cpp
index 8c9a3cc..3745f54 100644
--- a/src/efsw/String.cpp
+++ b/src/efsw/String.cpp
@@ -286,7 +286,7 @@ String& String::insert( std::size_t pos1, const String& str, std::size_t pos2, s
 String& String::insert( size_t pos1, const char* s, size_t n ) {
 	String tmp( s );
 
-	mString.insert( pos1, tmp.data(), n );
+	mString.insert( pos1, tmp.mString, 0, n );
 
 	return *this;
 }
@@ -299,7 +299,7 @@ String& String::insert( size_t pos1, size_t n, char c ) {
 String& String::insert( size_t pos1, const char* s ) {
 	String tmp( s );
 
-	mString.insert( pos1, tmp.data() );
+	mString.insert( pos1, tmp.mString );
 
 	return *this;
 }
@@ -385,7 +385,7 @@ String& String::assign( const String& str, size_t pos, size_t n ) {
 String& String::assign( const char* s, size_t n ) {
 	String tmp( s );
 
-	mString.assign( tmp.mString );
+	mString.assign( tmp.mString, 0, n );
 
 	return *this;
 }
@@ -419,7 +419,7 @@ String& String::append( const String& str, size_t pos, size_t n ) {
 String& String::append( const char* s, size_t n ) {
 	String tmp( s );
 
-	mString.append( tmp.mString );
+	mString.append( tmp.mString, 0, n );
 
 	return *this;
 }
@@ -465,7 +465,7 @@ String& String::replace( size_t pos1, size_t n1, const String& str, size_t pos2,
 String& String::replace( size_t pos1, size_t n1, const char* s, size_t n2 ) {
 	String tmp( s );
 
-	mString.replace( pos1, n1, tmp.data(), n2 );
+	mString.replace( pos1, n1, tmp.mString, 0, n2 );
 
 	return *this;
 }
@@ -473,7 +473,7 @@ String& String::replace( size_t pos1, size_t n1, const char* s, size_t n2 ) {
 String& String::replace( Iterator i1, Iterator i2, const char* s, size_t n2 ) {
 	String tmp( s );
 
-	mString.replace( i1, i2, tmp.data(), n2 );
+	mString.replace( i1, i2, tmp.mString.substr( 0, n2 ) );
 
 	return *this;
 }
@@ -511,7 +511,7 @@ std::size_t String::find( const String& str, std::size_t start ) const {
 }
 
 std::size_t String::find( const char* s, std::size_t pos, std::size_t n ) const {
-	return find( String( s ), pos );
+	return find( String( s ).substr( 0, n ), pos );
 }
 
 std::size_t String::find( const char* s, std::size_t pos ) const {
@@ -527,7 +527,7 @@ std::size_t String::rfind( const String& str, std::size_t pos ) const {
 }
 
 std::size_t String::rfind( const char* s, std::size_t pos, std::size_t n ) const {
-	return rfind( String( s ), pos );
+	return rfind( String( s ).substr( 0, n ), pos );
 }
 
 std::size_t String::rfind( const char* s, std::size_t pos ) const {
@@ -576,7 +576,7 @@ std::size_t String::find_first_of( const String& str, std::size_t pos ) const {
 }
 
 std::size_t String::find_first_of( const char* s, std::size_t pos, std::size_t n ) const {
-	return find_first_of( String( s ), pos );
+	return find_first_of( String( s ).substr( 0, n ), pos );
 }
 
 std::size_t String::find_first_of( const char* s, std::size_t pos ) const {
@@ -592,7 +592,7 @@ std::size_t String::find_last_of( const String& str, std::size_t pos ) const {
 }
 
 std::size_t String::find_last_of( const char* s, std::size_t pos, std::size_t n ) const {
-	return find_last_of( String( s ), pos );
+	return find_last_of( String( s ).substr( 0, n ), pos );
 }
 
 std::size_t String::find_last_of( const char* s, std::size_t pos ) const {
@@ -608,7 +608,7 @@ std::size_t String::find_first_not_of( const String& str, std::size_t pos ) cons
 }
 
 std::size_t String::find_first_not_of( const char* s, std::size_t pos, std::size_t n ) const {
-	return find_first_not_of( String( s ), pos );
+	return find_first_not_of( String( s ).substr( 0, n ), pos );
 }
 
 std::size_t String::find_first_not_of( const char* s, std::size_t pos ) const {
@@ -624,7 +624,7 @@ std::size_t String::find_last_not_of( const String& str, std::size_t pos ) const
 }
 
 std::size_t String::find_last_not_of( const char* s, std::size_t pos, std::size_t n ) const {
-	return find_last_not_of( String( s ), pos );
+	return find_last_not_of( String( s ).substr( 0, n ), pos );
 }
 
 std::size_t String::find_last_not_of( const char* s, std::size_t pos ) const {
-- 
2.43.0


From 80eac584c3146e5ade44e0897d244ce0ed6c62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 11/32] fix: keep the code of the last error and guard the
 error log

---
 src/efsw/Log.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 6f32df7..10c54ee 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -1,25 +1,33 @@
 #include <efsw/efsw.hpp>
 #include <efsw/Debug.hpp>
+#include <efsw/Lock.hpp>
 
 namespace efsw { namespace Errors {
 
 static std::string LastError = "";
 static Error LastErrorCode = NoError;
+static Mutex LastErrorLock;
 
 std::string Log::getLastErrorLog() {
+	Lock lock( LastErrorLock );
 	return LastError;
 }
 
 Error Log::getLastErrorCode() {
+	Lock lock( LastErrorLock );
 	return LastErrorCode;
 }
 
 void Log::clearLastError() {
+	Lock lock( LastErrorLock );
 	LastErrorCode = NoError;
 	LastError = "";
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	Lock lock( LastErrorLock );
+	LastErrorCode = err;
+
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
@@ -30,6 +38,9 @@ Error Log::createLastError( Error err, std::string log ) {
 		case FileOutOfScope:
 			LastError = "Symlink file out of scope ( " + log + " )";
 			break;
+		case FileNotReadable:
+			LastError = "File not readable ( " + log + " )";
+			break;
 		case FileRemote:
 			LastError =
 				"File is located in a remote file system, use a generic watcher. ( " + log + " )";
-- 
2.43.0


From 83897379872d68de42421f0e62732c4efeea4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 12/32] fix: release the C callbacks after the file-watcher
 that uses them

Only the first callback of a handle was released, before the watcher that was
still delivering to it, and the missed events callback of a second watch was
ignored. The last error text was shared by all the threads.
---
 src/efsw/FileWatcherCWrapper.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 4a82dfc..54154c3 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -40,24 +40,25 @@ class Watcher_CAPI : public efsw::FileWatchListener {
 static std::vector<Watcher_CAPI*> g_callbacks;
 static efsw::Mutex g_callbacksMutex;
 
-Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param ) {
+Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param,
+							 efsw_pfn_handle_missed_fileactions fnfa ) {
 	efsw::Lock l( g_callbacksMutex );
 	for ( Watcher_CAPI* callback : g_callbacks ) {
-		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param )
+		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param &&
+			 callback->mFnMissedFa == fnfa )
 			return callback;
 	}
 	return NULL;
 }
 
-void remove_callback( efsw_watcher watcher ) {
+std::vector<Watcher_CAPI*> remove_callbacks( efsw_watcher watcher ) {
 	efsw::Lock l( g_callbacksMutex );
-	auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
-							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
-	if ( found != g_callbacks.end() ) {
-		Watcher_CAPI* callback = *found;
-		delete callback;
-		g_callbacks.erase( found );
-	}
+	auto found =
+		std::stable_partition( g_callbacks.begin(), g_callbacks.end(),
+							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher != watcher; } );
+	std::vector<Watcher_CAPI*> removed( found, g_callbacks.end() );
+	g_callbacks.erase( found, g_callbacks.end() );
+	return removed;
 }
 
 /*************************************************************************************************/
@@ -66,12 +67,16 @@ efsw_watcher efsw_create( int generic_mode ) {
 }
 
 void efsw_release( efsw_watcher watcher ) {
-	remove_callback( watcher );
+	std::vector<Watcher_CAPI*> callbacks = remove_callbacks( watcher );
+	/// The callbacks are in use until the file-watcher is gone
 	delete (efsw::FileWatcher*)watcher;
+	for ( Watcher_CAPI* callback : callbacks ) {
+		delete callback;
+	}
 }
 
 const char* efsw_getlasterror() {
-	static std::string log_str;
+	static thread_local std::string log_str;
 	log_str = efsw::Errors::Log::getLastErrorLog();
 	return log_str.c_str();
 }
@@ -91,7 +96,8 @@ efsw_addwatch_withoptions( efsw_watcher watcher, const char* directory,
 						   efsw_pfn_fileaction_callback callback_fn, int recursive,
 						   efsw_watcher_option* options, int options_number, void* param,
 						   efsw_pfn_handle_missed_fileactions callback_fn_missed_file_actions ) {
-	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param );
+	Watcher_CAPI* callback =
+		find_callback( watcher, callback_fn, param, callback_fn_missed_file_actions );
 
 	if ( callback == NULL ) {
 		callback = new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
-- 
2.43.0


From 590289cdf23bac99bf8a6a4cead24a729ade44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 13/32] fix: resolve symbolic links relative to the directory
 that contains them

---
 src/efsw/FileSystem.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index 3dff4b3..de277f4 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -87,6 +87,19 @@ std::string FileSystem::getLinkRealPath( std::string dir, std::string& curPath )
 		/// get the current path of the directory without the link dir path
 		curPath = FileSystem::pathRemoveFileName( dir );
 
+		/// a path without directories is relative to the current one
+		if ( curPath == dir ) {
+			curPath = ".";
+		}
+
+		/// the link was already resolved, to compare them the current path must be resolved too
+		std::string realCurPath( FileSystem::getRealPath( curPath ) );
+
+		if ( !realCurPath.empty() ) {
+			curPath = realCurPath;
+			FileSystem::dirAddSlashAtEnd( curPath );
+		}
+
 		/// ensure that ends with the os directory slash
 		FileSystem::dirAddSlashAtEnd( link );
 
@@ -150,8 +163,8 @@ std::string FileSystem::getRealPath( const std::string& path ) {
 	std::string realPath;
 #if defined( EFSW_PLATFORM_POSIX )
 	char dir[PATH_MAX];
-	realpath( path.c_str(), &dir[0] );
-	realPath = std::string( dir );
+	if ( NULL != realpath( path.c_str(), &dir[0] ) )
+		realPath = std::string( dir );
 #elif EFSW_OS == EFSW_OS_WIN
 	wchar_t dir[_MAX_PATH + 1];
 	GetFullPathNameW( getWidePath( path ).c_str(), _MAX_PATH, &dir[0], nullptr );
-- 
2.43.0


From 117dbfe3a0136aa12a36b63a60408e8e1d347a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 14/32] fix: find mount points without changing the working
 directory

The result of a failed statfs is not looked at either.
---
 src/efsw/platform/posix/FileSystemImpl.cpp | 53 +++++++++++-----------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index dfaa107..1b72d86 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -62,51 +62,49 @@ namespace efsw { namespace Platform {
 #if EFSW_OS == EFSW_OS_LINUX
 
 std::string findMountPoint( std::string file ) {
-	std::string cwd = FileSystem::getCurrentWorkingDirectory();
 	struct stat last_stat;
-	struct stat file_stat;
 
-	stat( file.c_str(), &file_stat );
+	/* Walk the path and not the process: the working directory belongs to the application.  */
+	char* resolved = realpath( file.c_str(), NULL );
 
-	std::string mp;
+	if ( NULL == resolved )
+		return "";
 
-	if ( efsw::FileSystem::isDirectory( file ) ) {
-		last_stat = file_stat;
+	std::string mp( resolved );
 
-		if ( !FileSystem::changeWorkingDirectory( file ) )
-			return "";
-	} else {
-		std::string dir = efsw::FileSystem::pathRemoveFileName( file );
+	free( resolved );
 
-		if ( !FileSystem::changeWorkingDirectory( dir ) )
-			return "";
+	if ( stat( mp.c_str(), &last_stat ) < 0 )
+		return "";
+
+	if ( !S_ISDIR( last_stat.st_mode ) ) {
+		mp = efsw::FileSystem::pathRemoveFileName( mp );
+
+		if ( mp.size() > 1 )
+			efsw::FileSystem::dirRemoveSlashAtEnd( mp );
 
-		if ( stat( ".", &last_stat ) < 0 )
+		if ( stat( mp.c_str(), &last_stat ) < 0 )
 			return "";
 	}
 
-	while ( true ) {
+	while ( mp.size() > 1 ) {
 		struct stat st;
+		std::string parent( efsw::FileSystem::pathRemoveFileName( mp ) );
 
-		if ( stat( "..", &st ) < 0 )
-			goto done;
+		if ( parent.size() > 1 )
+			efsw::FileSystem::dirRemoveSlashAtEnd( parent );
+
+		if ( stat( parent.c_str(), &st ) < 0 )
+			return "";
 
 		if ( st.st_dev != last_stat.st_dev || st.st_ino == last_stat.st_ino )
 			break;
 
-		if ( !FileSystem::changeWorkingDirectory( ".." ) ) {
-			goto done;
-		}
-
+		mp = parent;
 		last_stat = st;
 	}
 
-	/* Finally reached a mount point, see what it's called.  */
-	mp = FileSystem::getCurrentWorkingDirectory();
-
-done:
-	FileSystem::changeWorkingDirectory( cwd );
-
+	/* Finally reached a mount point */
 	return mp;
 }
 
@@ -211,7 +209,8 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 	EFSW_OS == EFSW_OS_SOLARIS || EFSW_OS == EFSW_OS_ANDROID || EFSW_OS == EFSW_OS_IOS
 	struct statfs statfsbuf;
 
-	statfs( directory.c_str(), &statfsbuf );
+	if ( 0 != statfs( directory.c_str(), &statfsbuf ) )
+		return false;
 
 	switch ( statfsbuf.f_type | 0UL ) {
 		case S_MAGIC_FUSEBLK: /* 0x65735546 remote */
-- 
2.43.0


From b888ec177e4559d20fac70565f8743a57ca30d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 15/32] fix: start the inotify thread only once

---
 src/efsw/FileWatcherInotify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 2055bf1..c22d3ad 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -311,6 +311,8 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 }
 
 void FileWatcherInotify::watch() {
+	Lock initLock( mInitLock );
+
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
 		mThread->launch();
-- 
2.43.0


From 4fcf6ab6f1a8d5315e007bcf108a62441b639a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 16/32] fix: follow directories renamed while the watch of
 their parent was replaced

---
 src/efsw/FileWatcherInotify.cpp | 22 ++++++++++++++++++++--
 src/efsw/FileWatcherInotify.hpp |  3 +++
 src/efsw/WatcherInotify.hpp     |  3 +++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index c22d3ad..9d1c3e6 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -158,7 +158,8 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 				return wd;
 
 			// Its own move event is still to come, so check it again then
-			if ( fromInternalEvent && since > mStreamPos ) {
+			if ( fromInternalEvent && since > mStreamPos &&
+				 moveIsPending( watchIdExists->second ) ) {
 				mPendingChecks.push_back( std::make_pair( since, dir ) );
 				return wd;
 			}
@@ -178,6 +179,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	pWatch->Parent = parent;
 	pWatch->syntheticEvents = syntheticEvents;
 	pWatch->Since = since;
+	pWatch->PathSince = since;
 
 	{
 		Lock lock( mWatchesLock );
@@ -219,6 +221,19 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	return wd;
 }
 
+bool FileWatcherInotify::moveIsPending( WatcherInotify* watch ) {
+	std::string container( FileSystem::pathRemoveFileName( watch->Directory ) );
+	Lock lock( mWatchesLock );
+
+	/// Only if the directory where it was has been watched since then
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		if ( it->second->Directory == container && it->second->Since <= watch->PathSince )
+			return true;
+	}
+
+	return false;
+}
+
 void FileWatcherInotify::addSyntheticEvents( WatcherInotify* watch, const std::string& directory,
 											const FileInfoMap& files ) {
 	for ( const auto& file : files ) {
@@ -395,7 +410,8 @@ void FileWatcherInotify::run() {
 
 							auto wit = mWatches.find( pevent->wd );
 
-							if ( wit != mWatches.end() )
+							/// What happened before it had that path was in another one
+							if ( wit != mWatches.end() && mStreamPos > wit->second->Since )
 								curWatcher = wit->second;
 						}
 
@@ -599,6 +615,8 @@ void FileWatcherInotify::moveTree( WatcherInotify* watch, const std::string& opa
 		} else
 			continue;
 
+		moved->PathSince = mStreamPos;
+
 		/// Moved from another directory, its files are new in the path that it has now
 		if ( !mMoveSource.empty() )
 			moved->Unreported = watch->syntheticEvents;
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 6f625c4..d964c66 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -92,6 +92,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath, bool renamed = false );
 
+	/// The event of the move of a directory that was found in another path will be received
+	bool moveIsPending( WatcherInotify* watch );
+
 	/// Reports the files that were already there
 	void addSyntheticEvents( WatcherInotify* watch, const std::string& directory,
 							 const FileInfoMap& files );
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index 638b51d..0a9a2ef 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -21,6 +21,9 @@ class WatcherInotify : public Watcher {
 	/// Position in the stream of events where it was added, older events don't affect it
 	Uint64 Since{ 0 };
 
+	/// Position in the stream of events where its directory got the path that it has
+	Uint64 PathSince{ 0 };
+
 	/// Its files still have to be reported with synthetic events
 	bool Unreported{ false };
 };
-- 
2.43.0


From 82d2d16c704273ed2a10b4917f39d35f1afdd3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 17/32] fix: accept the root directory and repeated slashes at
 the end of directories

---
 src/efsw/FileSystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index de277f4..fc068c3 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -43,10 +43,16 @@ void FileSystem::dirAddSlashAtEnd( std::string& dir ) {
 	if ( dir.size() >= 1 && dir[dir.size() - 1] != getOSSlash() ) {
 		dir.push_back( getOSSlash() );
 	}
+
+	/// More slashes name the same directory
+	while ( dir.size() > 1 && dir[dir.size() - 2] == getOSSlash() ) {
+		dir.erase( dir.size() - 1 );
+	}
 }
 
 void FileSystem::dirRemoveSlashAtEnd( std::string& dir ) {
-	if ( dir.size() >= 1 && dir[dir.size() - 1] == getOSSlash() ) {
+	/// The root directory is nothing more than the slash
+	if ( dir.size() > 1 && dir[dir.size() - 1] == getOSSlash() ) {
 		dir.erase( dir.size() - 1 );
 	}
 }
-- 
2.43.0


From d2bcfd416a6fef0fc00a4e6243a5b206e6c9a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 18/32] fix: name the directory in the errors of the system

---
 src/efsw/FileWatcherInotify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 9d1c3e6..4f0f3fc 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -137,7 +137,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		if ( errno == ENOENT ) {
 			return error( Errors::FileNotFound, dir );
 		} else {
-			return error( Errors::Unspecified, std::string( strerror( errno ) ) );
+			return error( Errors::Unspecified, std::string( strerror( errno ) ) + " ( " + dir + " )" );
 		}
 	}
 
-- 
2.43.0


From 7c37c7208a699b82d056d46d5af5565d78f6aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 19/32] fix: poll the sub-directories of remote directories

---
 src/efsw/DirWatcherGeneric.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index f44f9ad..40964de 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -271,7 +271,10 @@ DirWatcherGeneric* DirWatcherGeneric::addDirectory( const std::string& name, boo
 
 	FileInfo fi( dir );
 
-	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
+	/// Local directories are not left for a remote file system, but the remote ones can be watched
+	if ( !fi.isDirectory() || !fi.isReadable() ||
+		 ( FileSystem::isRemoteFS( dir ) &&
+		   !FileSystem::isRemoteFS( DirSnap.DirectoryInfo.Filepath ) ) ) {
 		return NULL;
 	}
 
-- 
2.43.0


From 0176c33d4d32cd1291ff55c445b9ba472bb878c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 20/32] fix: ask the system whether a directory is readable

---
 src/efsw/FileInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 542e4dd..38692fc 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -189,8 +189,8 @@ bool FileInfo::isRegularFile() const {
 
 bool FileInfo::isReadable() const {
 #if EFSW_PLATFORM != EFSW_PLATFORM_WIN32
-	static bool isRoot = getuid() == 0;
-	return isRoot || 0 != S_ISRDBL( Permissions );
+	/// The permissions of the owner say nothing about what another user can do
+	return 0 == access( Filepath.c_str(), R_OK );
 #else
 	return 0 != S_ISRDBL( Permissions );
 #endif
-- 
2.43.0


From 6d2cb46d9c2bbcb1e3b9a07a5eb89ddf89f9d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 21/32] fix: SMB 2 and 3 shares are remote

---
 src/efsw/platform/posix/FileSystemImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 1b72d86..ecfd383 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -48,6 +48,7 @@
 #define S_MAGIC_PANFS 0xAAD7AAEA
 #define S_MAGIC_PIPEFS 0x50495045
 #define S_MAGIC_SMB 0x517B
+#define S_MAGIC_SMB2 0xFE534D42
 #define S_MAGIC_SNFS 0xBEEFDEAD
 #define S_MAGIC_VMHGFS 0xBACBACBC
 #define S_MAGIC_VXFS 0xA501FCF5
@@ -237,6 +238,7 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 		case S_MAGIC_PANFS:	  /* 0xAAD7AAEA remote */
 		case S_MAGIC_PIPEFS:  /* 0x50495045 remote */
 		case S_MAGIC_SMB:	  /* 0x517B remote */
+		case S_MAGIC_SMB2:	  /* 0xFE534D42 remote */
 		case S_MAGIC_SNFS:	  /* 0xBEEFDEAD remote */
 		case S_MAGIC_VMHGFS:  /* 0xBACBACBC remote */
 		case S_MAGIC_VXFS:	  /* 0xA501FCF5 remote */
-- 
2.43.0


From 80fa04556785f46c8c8191c878bc252720cf9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 22/32] fix: directories confirmed at their path can be
 followed by later renames

---
 src/efsw/FileWatcherInotify.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 4f0f3fc..eb5932d 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -153,10 +153,15 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 				return error( Errors::FileRepeated, directory );
 
 			// The watches of the user have precedence
-			if ( NULL != parent && ( NULL == watchIdExists->second->Parent ||
-									 watchIdExists->second->Directory == dir ) )
+			if ( NULL != parent && NULL == watchIdExists->second->Parent )
 				return wd;
 
+			// It's still there
+			if ( NULL != parent && watchIdExists->second->Directory == dir ) {
+				watchIdExists->second->PathSince = since;
+				return wd;
+			}
+
 			// Its own move event is still to come, so check it again then
 			if ( fromInternalEvent && since > mStreamPos &&
 				 moveIsPending( watchIdExists->second ) ) {
-- 
2.43.0


From 8dddd314c55f261edbbec4000076fae79aacdee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 23/32] fix: recognise link targets inside directories watched
 by another spelling

---
 src/efsw/DirWatcherGeneric.cpp  | 10 +++++++---
 src/efsw/FileSystem.cpp         | 13 +++++++++++++
 src/efsw/FileSystem.hpp         |  3 +++
 src/efsw/FileWatcherInotify.cpp | 14 ++++++++++++--
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 40964de..2faaec3 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -287,12 +287,15 @@ DirWatcherGeneric* DirWatcherGeneric::addDirectory( const std::string& name, boo
 		/// If it's a symlink check if the realpath exists as a watcher, or
 		/// if the path is outside the current dir
 		if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ||
-			 Watch->WatcherImpl->pathInWatches( link ) || Watch->pathInWatches( link ) ||
 			 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
 			return NULL;
 		}
 
-		dir = link;
+		dir = FileSystem::pathInDirectory( link, Watch->Directory );
+
+		if ( Watch->WatcherImpl->pathInWatches( dir ) || Watch->pathInWatches( dir ) ) {
+			return NULL;
+		}
 	} else if ( Watch->pathInWatches( dir ) ) {
 		/// The directory was reached first through a link, from now on it's watched by its name
 		dw = Watch->DirWatch->takeLinked( dir, this );
@@ -359,7 +362,8 @@ void DirWatcherGeneric::updateDirectory( std::string dir ) {
 		std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
 
 		if ( dit->second->FromLink
-				 ? link != dit->second->DirSnap.DirectoryInfo.Filepath
+				 ? FileSystem::pathInDirectory( link, Watch->Directory ) !=
+					   dit->second->DirSnap.DirectoryInfo.Filepath
 				 : "" != link ) {
 			removeDirectory( name );
 		}
diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index fc068c3..7f4bf1d 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -116,6 +116,19 @@ std::string FileSystem::getLinkRealPath( std::string dir, std::string& curPath )
 	return "";
 }
 
+std::string FileSystem::pathInDirectory( const std::string& realPath, const std::string& dir ) {
+	std::string realDir( FileSystem::getRealPath( dir ) );
+
+	FileSystem::dirAddSlashAtEnd( realDir );
+
+	if ( realDir.empty() || realPath.compare( 0, realDir.size(), realDir ) != 0 )
+		return realPath;
+
+	std::string path( dir );
+	FileSystem::dirAddSlashAtEnd( path );
+	return path + realPath.substr( realDir.size() );
+}
+
 std::string FileSystem::precomposeFileName( const std::string& name ) {
 #if EFSW_OS == EFSW_OS_MACOSX
 	CFStringRef cfStringRef =
diff --git a/src/efsw/FileSystem.hpp b/src/efsw/FileSystem.hpp
index 77d9f63..fde9d11 100644
--- a/src/efsw/FileSystem.hpp
+++ b/src/efsw/FileSystem.hpp
@@ -25,6 +25,9 @@ class FileSystem {
 
 	static std::string pathRemoveFileName( std::string filepath );
 
+	/// @return The path as dir is written, if it's inside of it, otherwise the same path
+	static std::string pathInDirectory( const std::string& realPath, const std::string& dir );
+
 	static std::string getLinkRealPath( std::string dir, std::string& curPath );
 
 	static std::string precomposeFileName( const std::string& name );
diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index eb5932d..f78e608 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -115,14 +115,24 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			return error( Errors::FileOutOfScope, dir );
 		}
 
+		std::string path( link );
+
+		if ( NULL != parent ) {
+			Lock lock( mWatchesLock );
+			WatchMap::iterator root = mWatches.find( parent->ID );
+
+			if ( root != mWatches.end() )
+				path = FileSystem::pathInDirectory( link, root->second->Directory );
+		}
+
 		/// If it's a symlink check if the realpath exists as a watcher, or
 		/// if the path is outside the current dir
-		if ( pathInWatches( link ) ) {
+		if ( pathInWatches( path ) ) {
 			return error( Errors::FileRepeated, directory );
 		} else if ( !linkAllowed( curPath, link ) ) {
 			return error( Errors::FileOutOfScope, dir );
 		} else {
-			dir = link;
+			dir = path;
 		}
 	}
 
-- 
2.43.0


From 3b078d24fcd6c89adbb62964f3ffd005862600db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 24/32] fix: keep the watches of directories that were moved
 away and back before their events were handled

---
 src/efsw/FileWatcherInotify.cpp | 15 +++++++++++++--
 src/efsw/WatcherInotify.hpp     |  5 +++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index f78e608..1a86901 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -169,6 +169,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			// It's still there
 			if ( NULL != parent && watchIdExists->second->Directory == dir ) {
 				watchIdExists->second->PathSince = since;
+				watchIdExists->second->FoundSince = since;
+				watchIdExists->second->FoundPath = dir;
+				watchIdExists->second->FoundID = parent->ID;
 				return wd;
 			}
 
@@ -732,8 +735,16 @@ void FileWatcherInotify::removeTreeLocked( const std::string& dir ) {
 	std::vector<WatchID> eraseWatches;
 
 	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-		if ( NULL != it->second->Parent && it->second->Since < mStreamPos &&
-			 -1 != String::strStartsWith( dir, it->second->Directory ) )
+		WatcherInotify* watch = it->second;
+
+		if ( NULL == watch->Parent || watch->Since >= mStreamPos ||
+			 -1 == String::strStartsWith( dir, watch->Directory ) )
+			continue;
+
+		/// By the time of the events still to come it was there again
+		if ( watch->FoundSince >= mStreamPos && watch->FoundID == watch->ID )
+			watch->Directory = watch->FoundPath;
+		else
 			eraseWatches.push_back( it->first );
 	}
 
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index 0a9a2ef..0e4d0dd 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -24,6 +24,11 @@ class WatcherInotify : public Watcher {
 	/// Position in the stream of events where its directory got the path that it has
 	Uint64 PathSince{ 0 };
 
+	/// Position in the stream of events, root and path where its directory was last found
+	Uint64 FoundSince{ 0 };
+	WatchID FoundID{ 0 };
+	std::string FoundPath;
+
 	/// Its files still have to be reported with synthetic events
 	bool Unreported{ false };
 };
-- 
2.43.0


From c445aa7eb2b780942f91e2071d7ce2aec551b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 25/32] fix: follow links renamed before their creation was
 handled

---
 src/efsw/FileWatcherInotify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 1a86901..f1b85d4 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -819,6 +819,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 			/// It could have been moved before it was possible to watch it
 			checkForNewWatcher( watch, fpath, true );
+		} else if ( !watch->OldFileName.empty() && FileInfo::isLink( fpath ) ) {
+			checkForNewWatcher( watch, fpath, true );
 		}
 
 		watch->OldFileName = "";
-- 
2.43.0


From c52a9f6e0e02e6a1cd7ec5dd0cf31047fa80024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 26/32] fix: a link that can not be resolved is still a link

---
 src/efsw/FileSystem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index 7f4bf1d..51d8be6 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -87,9 +87,12 @@ std::string FileSystem::getLinkRealPath( std::string dir, std::string& curPath )
 
 	/// Check with lstat and see if it's a link
 	if ( fi.isLink() ) {
-		/// get the real path of the link
+		/// get the real path of the link, if it fails it's still a link
 		std::string link( fi.linksTo() );
 
+		if ( link.empty() )
+			link = dir;
+
 		/// get the current path of the directory without the link dir path
 		curPath = FileSystem::pathRemoveFileName( dir );
 
-- 
2.43.0


From a738d0dbdb031e66e36fa224181a33eef4b33c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 27/32] fix: recognise directories reached through links by
 another spelling

---
 src/efsw/DirWatcherGeneric.cpp | 4 ++--
 src/efsw/FileSystem.cpp        | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 2faaec3..d1008b4 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -282,6 +282,8 @@ DirWatcherGeneric* DirWatcherGeneric::addDirectory( const std::string& name, boo
 	std::string curPath;
 	std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
 
+	dir = FileSystem::pathInDirectory( "" != link ? link : dir, Watch->Directory );
+
 	if ( "" != link ) {
 		/// Avoid adding symlinks directories if it's not enabled.
 		/// If it's a symlink check if the realpath exists as a watcher, or
@@ -291,8 +293,6 @@ DirWatcherGeneric* DirWatcherGeneric::addDirectory( const std::string& name, boo
 			return NULL;
 		}
 
-		dir = FileSystem::pathInDirectory( link, Watch->Directory );
-
 		if ( Watch->WatcherImpl->pathInWatches( dir ) || Watch->pathInWatches( dir ) ) {
 			return NULL;
 		}
diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index 51d8be6..b40255d 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -120,6 +120,9 @@ std::string FileSystem::getLinkRealPath( std::string dir, std::string& curPath )
 }
 
 std::string FileSystem::pathInDirectory( const std::string& realPath, const std::string& dir ) {
+	if ( realPath.compare( 0, dir.size(), dir ) == 0 )
+		return realPath;
+
 	std::string realDir( FileSystem::getRealPath( dir ) );
 
 	FileSystem::dirAddSlashAtEnd( realDir );
-- 
2.43.0


From 9478c927d8dfe2495e28906f95e0abff88ee324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 28/32] fix: a link whose target is unknown is out of scope

---
 src/efsw/FileSystem.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index b40255d..57953d5 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -90,8 +90,12 @@ std::string FileSystem::getLinkRealPath( std::string dir, std::string& curPath )
 		/// get the real path of the link, if it fails it's still a link
 		std::string link( fi.linksTo() );
 
-		if ( link.empty() )
-			link = dir;
+		/// but nothing says where it leads to: no directory is known to contain its target
+		if ( link.empty() ) {
+			curPath.clear();
+			FileSystem::dirAddSlashAtEnd( dir );
+			return dir;
+		}
 
 		/// get the current path of the directory without the link dir path
 		curPath = FileSystem::pathRemoveFileName( dir );
-- 
2.43.0


From 60b078d1164020534482fe1fc0afdbe9d547bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 29/32] fix: what happens in a directory while it is out of the
 tree is not reported

---
 src/efsw/FileWatcherInotify.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index f1b85d4..8e09105 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -742,9 +742,11 @@ void FileWatcherInotify::removeTreeLocked( const std::string& dir ) {
 			continue;
 
 		/// By the time of the events still to come it was there again
-		if ( watch->FoundSince >= mStreamPos && watch->FoundID == watch->ID )
+		if ( watch->FoundSince >= mStreamPos && watch->FoundID == watch->ID ) {
 			watch->Directory = watch->FoundPath;
-		else
+			watch->Since = watch->FoundSince;
+			watch->Unreported = watch->syntheticEvents;
+		} else
 			eraseWatches.push_back( it->first );
 	}
 
-- 
2.43.0


From e4ddcf914294f7b3b1b92f85aead9a8075084580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 30/32] fix: a directory moved into a watch that a callback
 removes does not report to it any more

---
 src/efsw/FileWatcherInotify.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 8e09105..1f5e6f2 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -791,6 +791,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Modified );
 
+			if ( !isRegistered( static_cast<WatcherInotify*>( watch ) ) )
+				return;
+
 			if ( watch->Recursive && ( IN_ISDIR & action ) && !mMoveSource.empty() )
 				moveTree( static_cast<WatcherInotify*>( watch ), mMoveSource, fpath + "/" );
 			else if ( watch->Recursive ) {
-- 
2.43.0


From 5731928ec3c0c364c4e21417b3cdf57b0b9a041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 31/32] fix: create the first file-watchers of a process in
 several threads

---
 src/efsw/platform/posix/SystemImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/efsw/platform/posix/SystemImpl.cpp b/src/efsw/platform/posix/SystemImpl.cpp
index 37d4120..7591026 100644
--- a/src/efsw/platform/posix/SystemImpl.cpp
+++ b/src/efsw/platform/posix/SystemImpl.cpp
@@ -8,6 +8,7 @@
 #include <sys/resource.h>
 #include <sys/time.h>
 
+#include <efsw/Atomic.hpp>
 #include <efsw/Debug.hpp>
 #include <efsw/FileSystem.hpp>
 
@@ -135,9 +136,9 @@ std::string System::getProcessPath() {
 }
 
 void System::maxFD() {
-	static bool maxed = false;
+	static Atomic<bool> maxed( false );
 
-	if ( !maxed ) {
+	if ( !maxed.load() ) {
 		struct rlimit limit;
 		getrlimit( RLIMIT_NOFILE, &limit );
 		limit.rlim_cur = limit.rlim_max;
-- 
2.43.0


From 47b017932e2abcf9034c88d3d9e0f620e0dec0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 32/32] fix: forget the directories found in advance in a
 directory that is not watched any more

---
 src/efsw/FileWatcherInotify.cpp | 12 ++++++++++++
 src/efsw/WatcherInotify.hpp     |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 1f5e6f2..de4947e 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -172,6 +172,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 				watchIdExists->second->FoundSince = since;
 				watchIdExists->second->FoundPath = dir;
 				watchIdExists->second->FoundID = parent->ID;
+				watchIdExists->second->ContainerID = parent->InotifyID;
 				return wd;
 			}
 
@@ -195,6 +196,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	pWatch->Directory = dir;
 	pWatch->Recursive = recursive;
 	pWatch->Parent = parent;
+	pWatch->ContainerID = parent ? parent->InotifyID : 0;
 	pWatch->syntheticEvents = syntheticEvents;
 	pWatch->Since = since;
 	pWatch->PathSince = since;
@@ -627,6 +629,7 @@ void FileWatcherInotify::moveTree( WatcherInotify* watch, const std::string& opa
 			moved->Directory = fpath;
 			moved->DirInfo = FileInfo( fpath );
 			moved->Parent = watch;
+			moved->ContainerID = watch->InotifyID;
 		} else if ( -1 != String::strStartsWith( opath, moved->Directory ) ) {
 			moved->Directory = fpath + moved->Directory.substr( opath.size() );
 			moved->DirInfo.Filepath = moved->Directory;
@@ -750,6 +753,15 @@ void FileWatcherInotify::removeTreeLocked( const std::string& dir ) {
 			eraseWatches.push_back( it->first );
 	}
 
+	/// From now on the moves of the directories in them, wherever they are, are unknown
+	for ( size_t i = 0; i < eraseWatches.size(); i++ ) {
+		for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+			if ( NULL != it->second->Parent && it->second->Since >= mStreamPos &&
+				 it->second->ContainerID == eraseWatches[i] )
+				eraseWatches.push_back( it->first );
+		}
+	}
+
 	for ( WatchID id : eraseWatches )
 		removeWatchLocked( id );
 }
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index 0e4d0dd..809f3ab 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -29,6 +29,9 @@ class WatcherInotify : public Watcher {
 	WatchID FoundID{ 0 };
 	std::string FoundPath;
 
+	/// The watch of the directory that contains it, where it was last found
+	WatchID ContainerID{ 0 };
+
 	/// Its files still have to be reported with synthetic events
 	bool Unreported{ false };
 };
-- 
2.43.0

