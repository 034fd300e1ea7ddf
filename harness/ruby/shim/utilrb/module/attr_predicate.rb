# Stand-in for the gem of that name, which is not installed here
class Module
    def attr_predicate(name, writable = false)
        name = name.to_s.chomp('?')
        define_method("#{name}?") { !!instance_variable_get("@#{name}") }
        define_method("#{name}=") { |v| instance_variable_set("@#{name}", v) } if writable
    end
end
