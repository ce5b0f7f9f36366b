package props

import (
	readline "github.com/nyaosorg/go-readline-ny"
)

// keyTable are the key names and the codes that terminals send for them.
var keyTable = []struct{ name, code string }{
	{"BACKSPACE", "\x7F"},
	{"CLEAR", "\x0C"},
	{"CTRL", "\x11"},
	{"CTRL_BREAK", "\x03"},
	{"CTRL_DOWN", "\x1B[1;5B"},
	{"C_A", "\x01"},
	{"C_B", "\x02"},
	{"C_C", "\x03"},
	{"C_D", "\x04"},
	{"C_E", "\x05"},
	{"C_F", "\x06"},
	{"C_G", "\x07"},
	{"C_H", "\x08"},
	{"C_I", "\x09"},
	{"C_J", "\x0A"},
	{"C_K", "\x0B"},
	{"C_L", "\x0C"},
	{"C_LEFT", "\x1B[1;5D"},
	{"C_M", "\x0D"},
	{"C_N", "\x0E"},
	{"C_O", "\x0F"},
	{"C_P", "\x10"},
	{"C_Q", "\x11"},
	{"C_R", "\x12"},
	{"C_RIGHT", "\x1B[1;5C"},
	{"C_S", "\x13"},
	{"C_T", "\x14"},
	{"C_U", "\x15"},
	{"C_UNDERBAR", "\x1F"},
	{"C_UP", "\x1B[1;5A"},
	{"C_V", "\x16"},
	{"C_W", "\x17"},
	{"C_X", "\x18"},
	{"C_Y", "\x19"},
	{"C_Z", "\x1A"},
	{"C_[", "\x1B"},
	{"C_\\", "\x1C"},
	{"C_]", "\x1D"},
	{"C_^", "\x1E"},
	{"DELETE", "\x1B[3~"},
	{"DOWN", "\x1B[B"},
	{"END", "\x1B[F"},
	{"ENTER", "\r"},
	{"ESCAPE", "\x1B"},
	{"F1", "\x1B[OP"},
	{"F10", "\x1B[21~"},
	{"F11", "\x1B[23~"},
	{"F12", "\x1B[24~"},
	{"F13", "\x7C"},
	{"F14", "\x7D"},
	{"F15", "\x7E"},
	{"F16", "\x7F"},
	{"F17", "\x80"},
	{"F18", "\x81"},
	{"F19", "\x82"},
	{"F2", "\x1B[OQ"},
	{"F20", "\x83"},
	{"F21", "\x84"},
	{"F22", "\x85"},
	{"F23", "\x86"},
	{"F24", "\x87"},
	{"F3", "\x1B[OR"},
	{"F4", "\x1B[OS"},
	{"F5", "\x1B[15~"},
	{"F6", "\x1B[16~"},
	{"F7", "\x1B[17~"},
	{"F8", "\x1B[18~"},
	{"F9", "\x1B[20~"},
	{"HOME", "\x1B[H"},
	{"LEFT", "\x1B[D"},
	{"M_A", "\x1Ba"},
	{"M_B", "\x1Bb"},
	{"M_BACKSPACE", "\x1B\b"},
	{"M_C", "\x1Bc"},
	{"M_D", "\x1Bd"},
	{"M_E", "\x1Be"},
	{"M_F", "\x1Bf"},
	{"M_G", "\x1Bg"},
	{"M_H", "\x1Bh"},
	{"M_I", "\x1Bi"},
	{"M_J", "\x1Bj"},
	{"M_K", "\x1Bk"},
	{"M_L", "\x1Bl"},
	{"M_M", "\x1Bm"},
	{"M_N", "\x1Bn"},
	{"M_O", "\x1Bo"},
	{"M_OEM_2", "\x1B/"},
	{"M_P", "\x1Bp"},
	{"M_Q", "\x1Bq"},
	{"M_R", "\x1Br"},
	{"M_S", "\x1Bs"},
	{"M_T", "\x1Bt"},
	{"M_U", "\x1Bu"},
	{"M_V", "\x1Bv"},
	{"M_W", "\x1Bw"},
	{"M_X", "\x1Bx"},
	{"M_Y", "\x1By"},
	{"M_Z", "\x1Bz"},
	{"PAGEDOWN", "\x1B[6~"},
	{"PAGEUP", "\x1B[5~"},
	{"PAUSE", "\x13"},
	{"RIGHT", "\x1B[C"},
	{"UP", "\x1B[A"},
}

// commandTable are the command names.
var commandTable = []struct {
	name string
	cmd  readline.Command
}{
	{"ACCEPT_LINE", readline.CmdAcceptLine},
	{"INTR", readline.CmdInterrupt},
	{"BEGINNING_OF_LINE", readline.CmdBeginningOfLine},
	{"BACKWARD_CHAR", readline.CmdBackwardChar},
	{"END_OF_LINE", readline.CmdEndOfLine},
	{"FORWARD_CHAR", readline.CmdForwardChar},
	{"BACKWARD_DELETE_CHAR", readline.CmdBackwardDeleteChar},
	{"DELETE_CHAR", readline.CmdDeleteChar},
	{"DELETE_OR_ABORT", readline.CmdDeleteOrAbort},
	{"KILL_LINE", readline.CmdKillLine},
	{"KILL_WHOLE_LINE", readline.CmdKillWholeLine},
	{"UNIX_WORD_RUBOUT", readline.CmdUnixWordRubout},
	{"UNIX_LINE_DISCARD", readline.CmdUnixLineDiscard},
	{"CLEAR_SCREEN", readline.CmdClearScreen},
	{"REPAINT_ON_NEWLINE", readline.CmdRepaintOnNewline},
	{"QUOTED_INSERT", readline.CmdQuotedInsert},
	{"YANK", readline.CmdYank},
	{"YANK_WITH_QUOTE", readline.CmdYankWithQuote},
	{"SWAPCHAR", readline.CmdSwapChar},
	{"BACKWARD_WORD", readline.CmdBackwardWord},
	{"FORWARD_WORD", readline.CmdForwardWord},
	{"UNDO", readline.CmdUndo},
	{"PREVIOUS_HISTORY", readline.CmdPreviousHistory},
	{"NEXT_HISTORY", readline.CmdNextHistory},
	{"ISEARCH_BACKWARD", readline.CmdISearchBackward},
}

// defaultTable are the default bindings.
var defaultTable = []struct {
	code string
	cmd  readline.Command
}{
	{"\x1Bb", readline.CmdBackwardWord},
	{"\x1Bf", readline.CmdForwardWord},
	{"\x1Bv", readline.CmdYank},
	{"\x1By", readline.CmdYankWithQuote},
	{"\x7F", readline.CmdBackwardDeleteChar},
	{"\x01", readline.CmdBeginningOfLine},
	{"\x02", readline.CmdBackwardChar},
	{"\x03", readline.CmdInterrupt},
	{"\x04", readline.CmdDeleteOrAbort},
	{"\x05", readline.CmdEndOfLine},
	{"\x06", readline.CmdForwardChar},
	{"\x08", readline.CmdBackwardDeleteChar},
	{"\x0B", readline.CmdKillLine},
	{"\x0C", readline.CmdClearScreen},
	{"\x1B[1;5D", readline.CmdBackwardWord},
	{"\x0D", readline.CmdAcceptLine},
	{"\x0E", readline.CmdNextHistory},
	{"\x10", readline.CmdPreviousHistory},
	{"\x11", readline.CmdQuotedInsert},
	{"\x12", readline.CmdISearchBackward},
	{"\x1B[1;5C", readline.CmdForwardWord},
	{"\x14", readline.CmdSwapChar},
	{"\x15", readline.CmdUnixLineDiscard},
	{"\x1F", readline.CmdUndo},
	{"\x16", readline.CmdQuotedInsert},
	{"\x17", readline.CmdUnixWordRubout},
	{"\x19", readline.CmdYank},
	{"\x1A", readline.CmdUndo},
	{"\x1B[3~", readline.CmdDeleteChar},
	{"\x1B[B", readline.CmdNextHistory},
	{"\x1B[F", readline.CmdEndOfLine},
	{"\x1B", readline.CmdKillWholeLine},
	{"\x1B[H", readline.CmdBeginningOfLine},
	{"\x1B[D", readline.CmdBackwardChar},
	{"\x1B[C", readline.CmdForwardChar},
	{"\x1B[A", readline.CmdPreviousHistory},
}
