// What a function says about itself.
package monkit
prop C13 C21

func (f *Func) ShortName() (r)
  pure unfold
  ensures value: r == f.key.Tags.Get("name")
end

func (f *Func) FullName() (r)
  pure
  requires some: f.scope != nil
  ensures value: r == fmt.Sprintf("%s.%s", f.scope.name, f.key.Tags.Get("name"))
end

func (f *Func) Id() (r)
  pure unfold
  ensures value: r == f.id
end

func (f *Func) Scope() (r)
  pure unfold
  ensures value: r == f.scope
end

func (f *Func) Parents(cb)
  prop C26
  op callsback nokeep
  emits {
    f.FuncStats.parents(cb)
  }
end
