# Stand-in for the gem of that name, which is not installed here
require 'logger'
class Logger
    def self.Root(name, level)
        logger = Logger.new(STDERR)
        logger.level = level
        logger.progname = name
        Module.new do
            define_method(:logger) { logger }
            %i[debug info warn error fatal].each do |m|
                define_method(m) { |*args, &block| logger.send(m, *args, &block) }
            end
        end
    end
end
