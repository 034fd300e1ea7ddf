# Stand-in for the gem of that name, which is not installed here
module Kernel
    def self.filter_options(options, *specs)
        known = {}
        specs.each do |s|
            if s.kind_of?(Hash) then s.each { |k, v| known[k.to_sym] = v }
            else Array(s).each { |k| known[k.to_sym] = nil } end
        end
        given = {}
        unknown = {}
        (options || {}).to_hash.each do |k, v|
            if known.has_key?(k.to_sym) then given[k.to_sym] = v
            else unknown[k] = v end
        end
        known.each { |k, v| given[k] = v if !given.has_key?(k) && !v.nil? }
        [given, unknown]
    end
    def self.validate_options(options, *specs)
        known, unknown = filter_options(options, *specs)
        if !unknown.empty?
            raise ArgumentError, "unknown options #{unknown.keys.map { |k| "'#{k}'" }.join(" ")}", caller(1)
        end
        known
    end
end
