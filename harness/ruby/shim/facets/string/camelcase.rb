# Stand-in for the gem of that name, which is not installed here
class String
    def camelcase(first_letter = nil)
        str = gsub(/(?:[_\s]+)([a-z])/) { $1.upcase }
        case first_letter
        when :upper, true then str.sub(/\A([a-z])/) { $1.upcase }
        when :lower, false then str.sub(/\A([A-Z])/) { $1.downcase }
        else str
        end
    end
end
