package level

import "github.com/go-kit/kit/log"

func Debug(l log.Logger) log.Logger { return log.NewNopLogger() }
func Info(l log.Logger) log.Logger  { return log.NewNopLogger() }
func Warn(l log.Logger) log.Logger  { return log.NewNopLogger() }
func Error(l log.Logger) log.Logger { return log.NewNopLogger() }
