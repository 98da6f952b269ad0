class Module
  def attr_predicate(name, writable = false)
    name = name.to_s.sub(/\?$/, '')
    define_method("#{name}?") { !!instance_variable_get("@#{name}") }
    attr_writer name if writable
  end
end
