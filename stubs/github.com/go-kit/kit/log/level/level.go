// Package level stands in for github.com/go-kit/kit/log/level.
package level

import "github.com/go-kit/kit/log"

// Error gives the logger for errors.
func Error(l log.Logger) log.Logger { return l }

// Warn gives the logger for warnings.
func Warn(l log.Logger) log.Logger { return l }

// Info gives the logger for information.
func Info(l log.Logger) log.Logger { return l }

// Debug gives the logger for debugging.
func Debug(l log.Logger) log.Logger { return l }
