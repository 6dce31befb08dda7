// In-memory model of the tree under the scratch base, the operations on it, and their execution on the real one.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>

struct Node {
	bool dir = false, link = false, fifo = false;
	std::map<std::string, Node*> kids;
	Node* parent = nullptr;
	std::string name;
	std::string target;	 // symlinks
	bool fresh = false;	 // directory that appeared at this place since the last settle
	long ino = 0;		 // identity of the content (hard links share it)
	~Node() {
		for ( auto& k : kids )
			delete k.second;
	}
};

enum FactKind { F_APPEAR, F_VANISH, F_MODIFY, F_RENAME };

struct Fact {
	FactKind kind;
	std::string dir, name, old; // dir relative to base without trailing slash; direct entry
	bool isDir = false;
	bool derived = false;		// descendant of a moved or removed directory, not the entry itself
	long seq = 0;
	bool overwrote = false;		// rename onto an existing name
	std::string path() const { return dir + "/" + name; }
	std::string oldPath() const { return dir + "/" + old; }
};

struct Op {
	std::string kind;
	std::vector<std::string> a;
	std::string text() const;
};

std::string esc( const std::string& s );
std::string unesc( const std::string& s );
Op parseOp( const std::string& line );
std::string pathOf( const Node* n );
std::string dirName( const std::string& p );
std::string baseName( const std::string& p );
bool under( const std::string& p, const std::string& dir ); // p == dir or below it

struct Model {
	Node root;
	std::vector<Fact> facts;		   // since the last settle
	std::set<std::string> dirtyLabels; // directory paths at which a fresh directory was, since the last settle
	// Paths that changed hands more than once since the last settle: what a scan by path finds there may be newer
	// than the notification that led to the scan.
	std::map<std::string, int> touches;
	bool touched( const std::string& p ) const;
	std::vector<std::pair<std::string, std::string>> moves;
	bool churned( const std::string& p, int depth = 0 ) const;
	std::set<std::string> extraScope;
	long seq = 0, inoSeq = 0;

	Model() { root.dir = true; }
	Node* find( const std::string& p );
	bool inFresh( const Node* n ); // n itself or an ancestor is fresh
	// Applies op if it is possible. Returns whether it was applied.
	bool apply( const Op& op );
	bool possible( const Op& op );
	void settle();				   // start a new epoch
	void listing( const std::string& rootPath, bool recursive, std::set<std::string>& out );
	void allDirs( const std::string& rootPath, std::vector<std::string>& out );
	void allFiles( const std::string& rootPath, std::vector<std::string>& out );

  private:
	void fact( FactKind k, Node* dir, const std::string& name, const std::string& old, bool isDir, bool derived,
			   bool over = false );
	void markDirty( Node* dir );
	void derived( FactKind k, Node* n );
	Node* mk( Node* d, const std::string& name );
};

// FS operations that the model knows: mkdir touch write trunc append rm rmrf mv ln sym chmod mkfifo
bool isFsOp( const std::string& kind );
// Executes on the real file system below base (absolute). Returns true if it succeeded.
bool execReal( const std::string& base, const Op& op );
void rmTree( const std::string& abs );
