package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// The JSON report, as documented in proto/capability.proto.
type Report struct {
	CapabilityInfo []*CapInfo `json:"capabilityInfo,omitempty"`
	ModuleInfo     []ModInfo  `json:"moduleInfo,omitempty"`
	PackageInfo    []PkgInfo  `json:"packageInfo,omitempty"`
}

type CapInfo struct {
	PackageName    string   `json:"packageName,omitempty"`
	Capability     string   `json:"capability,omitempty"`
	DepPath        string   `json:"depPath,omitempty"`
	Path           []PathFn `json:"path,omitempty"`
	PackageDir     string   `json:"packageDir,omitempty"`
	CapabilityType string   `json:"capabilityType,omitempty"`
}

type PathFn struct {
	Name    string `json:"name,omitempty"`
	Site    *Site  `json:"site,omitempty"`
	Package string `json:"package,omitempty"`
}

type Site struct {
	Filename string `json:"filename,omitempty"`
	Line     string `json:"line,omitempty"`
	Column   string `json:"column,omitempty"`
}

type ModInfo struct {
	Path    string `json:"path,omitempty"`
	Version string `json:"version,omitempty"`
}

type PkgInfo struct {
	Path         string   `json:"path,omitempty"`
	IgnoredFiles []string `json:"ignoredFiles,omitempty"`
}

func parseReport(s string) (*Report, error) {
	rep := new(Report)
	dec := json.NewDecoder(strings.NewReader(s))
	dec.DisallowUnknownFields()
	if err := dec.Decode(rep); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("trailing data after report")
	}
	return rep, nil
}

// fn returns the name of the function an entry is about.
func (c *CapInfo) fn() string {
	if len(c.Path) == 0 {
		return ""
	}
	return c.Path[0].Name
}

// pairs returns the multiset of (function, capability) pairs, as
// "function CAP" strings, of a function-granularity report.
func (r *Report) pairs() map[string]int {
	m := map[string]int{}
	for _, c := range r.CapabilityInfo {
		m[c.fn()+" "+strings.TrimPrefix(c.Capability, "CAPABILITY_")]++
	}
	return m
}

// pkgPairs returns the multiset of (package, capability) pairs.
func (r *Report) pkgPairs() map[string]int {
	m := map[string]int{}
	for _, c := range r.CapabilityInfo {
		m[c.PackageDir+" "+strings.TrimPrefix(c.Capability, "CAPABILITY_")]++
	}
	return m
}

var allCaps = []string{
	"UNSPECIFIED", "SAFE", "FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE",
	"MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS",
	"ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT",
	"EXEC",
}

// reportCaps are the capabilities a report can contain.
var reportCaps = allCaps[2:]
