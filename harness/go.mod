module verif/harness

go 1.20

require (
	github.com/cihub/seelog v0.0.0-20151216151435-d2c6e5aa9fbf
	github.com/davecgh/go-spew v1.1.1
	github.com/fatih/structs v1.0.0
	github.com/frankbraun/codechain v0.0.0-20180527071116-4cc528be23cf
	github.com/gdamore/encoding v0.0.0-20151215212835-b23993cbb635
	github.com/gdamore/tcell v1.0.0
	github.com/go-sql-driver/mysql v1.3.0
	github.com/gorilla/rpc v1.1.0
	github.com/jpillora/backoff v0.0.0-20170918002102-8eab2debe79d
	github.com/lucasb-eyer/go-colorful v0.0.0-20180526135729-345fbb3dbcdb
	github.com/mattn/go-runewidth v0.0.2
	github.com/mutecomm/go-sqlcipher/v4 v4.4.0
	github.com/peterh/liner v1.0.1-0.20180504030148-80ce870644db
	github.com/pmezard/go-difflib v1.0.0
	github.com/ronperry/cryptoedge v0.0.0-20150815114006-cc363e290743
	github.com/stretchr/testify v1.3.0
	github.com/urfave/cli v1.20.0
	golang.org/x/crypto v0.0.0-20180527072434-ab813273cd59
	golang.org/x/net v0.0.0-20190225153610-fe579d43d832
	golang.org/x/sys v0.0.0-20180525142821-c11f84a56e43
	golang.org/x/text v0.3.0
)
require github.com/mutecomm/mute v0.0.0
replace github.com/mutecomm/mute => /repo
