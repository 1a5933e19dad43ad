// Package xlog turns process exits from package log into simulated ones.
package xlog

import (
	"fmt"

	"verif.local/dst/rt"
)

func Fatal(v ...any)            { rt.Exit(fmt.Sprint(v...)) }
func Fatalf(f string, v ...any) { rt.Exit(fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)          { rt.Exit(fmt.Sprintln(v...)) }
func Print(v ...any)            {}
func Printf(f string, v ...any) {}
func Println(v ...any)          {}
