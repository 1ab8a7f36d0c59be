package release

const (
	// Commit is the git commit hash.
	Commit = "f002e280310a4fd7edc93df7480b68b34425ff48"
	// Date is the git commit date.
	Date = "Thu Nov 12 05:46:50 2026 +0000"
)
