package lint

import (
	"fmt"
	"strings"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"github.com/breml/logstash-config/internal/vc"
)

// ---- what lint does with one plugin

func vcspec_onPlugin(c *astutil.Cursor) bool {
	if !astutil.Vcspec_at(c) {
		return false
	}
	_, ok := astutil.Vcspec_list(c)[astutil.Vcspec_index(c)].(ast.Plugin)
	return ok
}

func vcspec_has(m map[string]struct{}, id string) bool {
	_, ok := m[id]
	return ok
}

// vcspec_adds: now holds what was held before, and id.
func vcspec_adds(now, was map[string]struct{}, id string) bool {
	return vcspec_has(now, id) && vc.ForallStr(func(s string) bool { return s == id || vcspec_has(now, s) == vcspec_has(was, s) })
}

func vcspec_same(now, was map[string]struct{}) bool {
	return vc.ForallStr(func(s string) bool { return vcspec_has(now, s) == vcspec_has(was, s) })
}

// vcspec_listed: the list got one more entry that says where the plugin is.
func vcspec_listed(now, was []string, p ast.Plugin) bool {
	n := len(was)
	return len(now) == n+1 && now[n] == fmt.Sprintf("%d:%d [%d]", p.Start.Line, p.Start.Column, p.Start.Offset)+": "+p.Name() &&
		vc.Forall(0, n, func(k int) bool { return now[k] == was[k] })
}

func vcspec_kept(now, was []string) bool {
	n := len(was)
	return len(now) == n && vc.Forall(0, n, func(k int) bool { return now[k] == was[k] })
}

//vc:prop C17 C18
//vc:target (*internal/app/lint.validator).collectIDs
func vccheck_collectIDs(v *validator, c *astutil.Cursor) {
	vc.Requires(v != nil && v.usedIDs != nil && vcspec_onPlugin(c))
	p := astutil.Vcspec_list(c)[astutil.Vcspec_index(c)].(ast.Plugin)
	id, err := p.ID()
	was := vc.CopyMap(v.usedIDs)
	v.collectIDs(c)
	vc.Ensures("only the used ids are changed", vc.OnlyChanged(v.usedIDs))
	vc.Ensures("the plugin's id is used now, no other changes", err != nil || vcspec_adds(v.usedIDs, was, id))
	vc.Ensures("without an id nothing changes", err == nil || vcspec_same(v.usedIDs, was))
}

//vc:prop C18
//vc:target (*internal/app/lint.validator).newID
func vccheck_newID(v *validator, name string) {
	vc.Requires(v != nil && v.usedIDs != nil)
	was := vc.CopyMap(v.usedIDs)
	r := v.newID(name)
	vc.Ensures("only the used ids are changed", vc.OnlyChanged(v.usedIDs))
	vc.Ensures("the id was not used before", !vcspec_has(was, r))
	vc.Ensures("the id is used now, no other changes", vcspec_adds(v.usedIDs, was, r))
	vc.Ensures("it is made from the plugin's name", strings.HasPrefix(r, name+"-"))
}

//vc:prop C17 C18
//vc:target (*internal/app/lint.validator).walk
//vc:use (*internal/app/lint.validator).newID
func vccheck_walk(v *validator, c *astutil.Cursor) {
	vc.Requires(v != nil && v.usedIDs != nil && v.allIDs != nil && vcspec_onPlugin(c))
	vc.Requires(vc.Apart(v.usedIDs, v.allIDs) && vc.Apart(vc.Arr(v.noIDs), vc.Arr(v.duplicateIDs)))
	list, i := vc.CopySlice(astutil.Vcspec_list(c)), astutil.Vcspec_index(c)
	p := list[i].(ast.Plugin)
	attrs := vc.CopySlice(p.Attributes)
	id, err := p.ID()
	fix := err != nil && v.autoFixID && ast.IsNotFoundError(err)
	used, all := vc.CopyMap(v.usedIDs), vc.CopyMap(v.allIDs)
	repeated := vcspec_has(all, id)
	count, changed := v.count, v.changed
	none, dup := vc.CopySlice(v.noIDs), vc.CopySlice(v.duplicateIDs)
	none0, dup0 := v.noIDs, v.duplicateIDs
	arrList, arrNone, arrDup, arrAttrs := vc.Arr(astutil.Vcspec_list(c)), vc.Arr(v.noIDs), vc.Arr(v.duplicateIDs), vc.Arr(p.Attributes)
	v.walk(c)
	vc.Ensures("only the validator, the entry and spare room are changed", vc.OnlyChanged(&v.count, &v.changed, &v.noIDs, &v.duplicateIDs, v.usedIDs, v.allIDs, arrList, arrNone, arrDup, arrAttrs))
	vc.Ensures("the lists grow in place or are new", (vc.New(v.noIDs) || vc.SameArr(v.noIDs, none0)) && (vc.New(v.duplicateIDs) || vc.SameArr(v.duplicateIDs, dup0)))
	vc.Ensures("the lists stay apart", vc.Apart(vc.Arr(v.noIDs), vc.Arr(v.duplicateIDs)))
	vc.Ensures("plugins are counted", v.count == count+1)
	now := astutil.Vcspec_list(c)
	vc.Ensures("the cursor stays, the list keeps its length", astutil.Vcspec_index(c) == i && len(now) == len(list))
	vc.Ensures("the other entries are kept", vc.Forall(0, len(list), func(k int) bool { return k == i || vc.Same(now[k], list[k]) }))
	vc.Ensures("the attributes that were there are kept", vc.Forall(0, len(attrs), func(k int) bool { return vc.Same(p.Attributes[k], attrs[k]) }))
	vc.Ensures("a plugin that has an id, or is not to be fixed, is kept", fix || vc.Same(now[i], list[i]))
	vc.Ensures("and changes nothing to be written", fix || v.changed == changed)
	vc.Ensures("a plugin without usable id is listed, if it is not fixed", err == nil || fix || vcspec_listed(v.noIDs, none, p))
	vc.Ensures("no other is", err != nil && !fix || vcspec_kept(v.noIDs, none))
	vc.Ensures("a plugin that repeats an id is listed", err != nil || !repeated || vcspec_listed(v.duplicateIDs, dup, p))
	vc.Ensures("no other one is", err == nil && repeated || vcspec_kept(v.duplicateIDs, dup))
	vc.Ensures("its id is remembered, no other", err != nil || vcspec_adds(v.allIDs, all, id))
	vc.Ensures("without an id nothing is", err == nil || vcspec_same(v.allIDs, all))
	if fix {
		q, ok := now[i].(ast.Plugin)
		if !ok {
			pq, isP := now[i].(*ast.Plugin) // printed alike
			if isP && pq != nil {
				q, ok = *pq, true
			}
		}
		vc.Ensures("the fixed entry is a plugin, the file is to be written", ok && v.changed)
		vc.Ensures("it has one attribute more", len(q.Attributes) == len(attrs)+1)
		sa, ok := q.Attributes[len(attrs)].(ast.StringAttribute)
		vc.Ensures("one id attribute is added, all else is kept", ok && ast.Vcspec_added(q, p, sa) && sa.Name() == "id")
		vc.Ensures("the attributes before it are kept", vc.Forall(0, len(attrs), func(k int) bool { return vc.Same(q.Attributes[k], attrs[k]) }))
		vc.Ensures("its quotes suit the name", sa.StringAttributeType() == ast.DoubleQuoted && !strings.HasPrefix(p.Name(), "'") || sa.StringAttributeType() == ast.SingleQuoted && strings.HasPrefix(p.Name(), "'"))
		vc.Ensures("the new id was not used before", !vcspec_has(used, sa.Value()))
		vc.Ensures("the new id is used now, no other changes", vcspec_adds(v.usedIDs, used, sa.Value()))
	} else {
		vc.Ensures("the used ids are kept", vcspec_same(v.usedIDs, used))
	}
}
