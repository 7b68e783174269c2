package main

import "github.com/charlesetsmith/saratoga/sarflags"

func cli(dir string) { sarflags.Cliflag.Sardir = dir }
