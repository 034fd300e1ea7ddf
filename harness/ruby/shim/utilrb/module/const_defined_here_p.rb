# Stand-in for the gem of that name, which is not installed here
class Module
    def const_defined_here?(name) const_defined?(name, false) end
end
