# Stand-in for the gem of that name, which is not installed here
class Object
    def address; __id__ << 1 end
end
