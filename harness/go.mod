module verif

go 1.22

require alda.io/client v0.0.0

replace alda.io/client => /repo/client
require (
	github.com/AlecAivazis/survey/v2 v2.3.7
	github.com/Jeffail/gabs/v2 v2.6.0
	github.com/OpenPeeDeeP/xdg v0.2.0
	github.com/acarl005/stripansi v0.0.0-20180116102854-5a71ef0e047d
	github.com/beevik/etree v1.1.0
	github.com/chzyer/readline v0.0.0-20180603132655-2972be24d48e
	github.com/davecgh/go-spew v1.1.1
	github.com/daveyarwood/go-osc v0.0.0-20200229013406-0675d0af5e0b
	github.com/dustin/go-humanize v1.0.0
	github.com/go-test/deep v1.0.1
	github.com/google/shlex v0.0.0-20191202100458-e7afc7fbc510
	github.com/google/uuid v1.1.1
	github.com/jackpal/bencode-go v1.0.0
	github.com/logrusorgru/aurora v2.0.3+incompatible
	github.com/mattn/go-isatty v0.0.8
	github.com/mohae/deepcopy v0.0.0-20170929034955-c48cc78d4826
	github.com/rs/zerolog v1.21.0
	github.com/spf13/cobra v1.7.0
	github.com/vbauerster/mpb/v6 v6.0.2
	gitlab.com/gomidi/midi v1.14.1
)

require (
	github.com/VividCortex/ewma v1.1.1 // indirect
	github.com/chzyer/logex v1.1.10 // indirect
	github.com/chzyer/test v0.0.0-20180213035817-a1ea475d72b1 // indirect
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51 // indirect
	github.com/mattn/go-colorable v0.1.2 // indirect
	github.com/mattn/go-runewidth v0.0.10 // indirect
	github.com/mgutz/ansi v0.0.0-20170206155736-9520e82c474b // indirect
	github.com/rivo/uniseg v0.2.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	golang.org/x/sys v0.22.0 // indirect
	golang.org/x/term v0.0.0-20210927222741-03fcf44c2211 // indirect
	golang.org/x/text v0.4.0 // indirect
)
