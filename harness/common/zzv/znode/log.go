// Package znode holds what harnesses of the relay share: a silent logger and
// in-process nodes that the real clients talk to when a path is replayed.
package znode

import (
	"io"

	"github.com/icon-project/btp/common/log"
)

// L drops every line; Panic* and Fatal* panic.
type L struct{ log.Logger }

func (L) Print(args ...interface{})                           {}
func (L) Printf(format string, args ...interface{})           {}
func (L) Println(args ...interface{})                         {}
func (L) Trace(args ...interface{})                           {}
func (L) Tracef(format string, args ...interface{})           {}
func (L) Traceln(args ...interface{})                         {}
func (L) Debug(args ...interface{})                           {}
func (L) Debugf(format string, args ...interface{})           {}
func (L) Debugln(args ...interface{})                         {}
func (L) Info(args ...interface{})                            {}
func (L) Infof(format string, args ...interface{})            {}
func (L) Infoln(args ...interface{})                          {}
func (L) Warn(args ...interface{})                            {}
func (L) Warnf(format string, args ...interface{})            {}
func (L) Warnln(args ...interface{})                          {}
func (L) Error(args ...interface{})                           {}
func (L) Errorf(format string, args ...interface{})           {}
func (L) Errorln(args ...interface{})                         {}
func (L) Panic(args ...interface{})                           { panic("log.Panic") }
func (L) Panicf(format string, args ...interface{})           { panic("log.Panicf " + format) }
func (L) Panicln(args ...interface{})                         { panic("log.Panicln") }
func (L) Fatal(args ...interface{})                           { panic("log.Fatal") }
func (L) Fatalf(format string, args ...interface{})           { panic("log.Fatalf " + format) }
func (L) Fatalln(args ...interface{})                         { panic("log.Fatalln") }
func (L) Log(level log.Level, args ...interface{})            {}
func (L) Logf(level log.Level, f string, args ...interface{}) {}
func (L) Logln(level log.Level, args ...interface{})          {}
func (l L) WithFields(log.Fields) log.Logger                  { return l }
func (L) SetLevel(lv log.Level)                               {}
func (L) GetLevel() log.Level                                 { return log.TraceLevel }

func (L) WriterLevel(lv log.Level) *io.PipeWriter { return nil }
func (L) SetConsoleLevel(lv log.Level)            {}
func (L) SetModuleLevel(mod string, lv log.Level) {}
func (L) SetFileWriter(w io.Writer) error         { return nil }
