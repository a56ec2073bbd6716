// Package vlog stands for package log: nothing is written, Fatal and Panic end the process.
package vlog

import "io"

type Logger struct{}

func Default() *Logger                   { return &Logger{} }
func New(io.Writer, string, int) *Logger { return &Logger{} }
func Print(...any)                       {}
func Printf(string, ...any)              {}
func Println(...any)                     {}
func Fatal(...any)                       { panic("os.Exit(1)") }
func Fatalf(string, ...any)              { panic("os.Exit(1)") }
func Fatalln(...any)                     { panic("os.Exit(1)") }
func Panic(...any)                       { panic("log.Panic") }
func Panicf(string, ...any)              { panic("log.Panic") }
func Panicln(...any)                     { panic("log.Panic") }
func SetFlags(int)                       {}
func SetPrefix(string)                   {}
func SetOutput(io.Writer)                {}
func (*Logger) Print(...any)             {}
func (*Logger) Printf(string, ...any)    {}
func (*Logger) Println(...any)           {}
func (*Logger) Fatal(...any)             { panic("os.Exit(1)") }
func (*Logger) Fatalf(string, ...any)    { panic("os.Exit(1)") }
func (*Logger) Fatalln(...any)           { panic("os.Exit(1)") }
func (*Logger) Panic(...any)             { panic("log.Panic") }
func (*Logger) Panicf(string, ...any)    { panic("log.Panic") }
func (*Logger) Panicln(...any)           { panic("log.Panic") }
